package adapter

import (
	"errors"
	"io/ioutil"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	k8sv1 "k8s.io/api/core/v1"
	kerrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/kubernetes"
	corev1 "k8s.io/client-go/kubernetes/typed/core/v1"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/handler"
	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzCluster is a cluster with at most one secret.
type zzCluster struct {
	kubernetes.Interface
	corev1.CoreV1Interface
	down          bool
	ns, name, key string
	value         string
	gone          bool
	reads         int
}

func (c *zzCluster) CoreV1() corev1.CoreV1Interface { return c }
func (c *zzCluster) Secrets(ns string) corev1.SecretInterface {
	return zzSecrets{c: c, ns: ns}
}

type zzSecrets struct {
	corev1.SecretInterface
	c  *zzCluster
	ns string
}

func (s zzSecrets) Get(name string, o metav1.GetOptions) (*k8sv1.Secret, error) {
	c := s.c
	c.reads++
	if c.down {
		return nil, errors.New("cluster unreachable")
	}
	if c.gone || zz.Fork(zz.Or(s.ns != c.ns, name != c.name)) {
		return nil, kerrors.NewNotFound(schema.GroupResource{Resource: "secrets"}, "secret")
	}
	return &k8sv1.Secret{
		ObjectMeta: metav1.ObjectMeta{Namespace: c.ns, Name: c.name},
		Data:       map[string][]byte{c.key: []byte(c.value)},
	}, nil
}

// zzIdp is a provider whose endpoints carry a suffix and that may be down.
type zzIdp struct {
	down     int // discovery requests that fail
	fetched  []string
	form     url.Values
	user     string
	pass     string
	basic    bool
	tokenURL string
	tokens   int
	keys     int
}

func (p *zzIdp) RoundTrip(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	switch {
	case strings.HasPrefix(u, "https://idp/d/"):
		p.fetched = append(p.fetched, u)
		if p.down > 0 {
			p.down--
			return nil, errors.New("connection refused")
		}
		x := u[len("https://idp/d/"):]
		return zz.Response(req, 200, zz.Body(zz.JO().
			With("issuer", zz.JS("https://idp")).
			With("authorization_endpoint", zz.JS("https://idp/a/"+x)).
			With("token_endpoint", zz.JS("https://idp/t/"+x)).
			With("jwks_uri", zz.JS("https://idp/k/"+x)).
			With("userinfo_endpoint", zz.JS("https://idp/u/"+x)))), nil
	case strings.HasPrefix(u, "https://idp/k/"):
		p.keys++
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(
			zz.JO().With("kid", zz.JS("k")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(0))).With("e", zz.JS(zz.KeyE)))))), nil
	case strings.HasPrefix(u, "https://idp/t/"):
		p.tokens++
		p.tokenURL = u
		p.user, p.pass, p.basic = req.BasicAuth()
		b, err := ioutil.ReadAll(req.Body)
		if err != nil {
			panic(err)
		}
		p.form, err = url.ParseQuery(string(b))
		zz.Assert(err == nil, "the body is not a form")
		return zz.Response(req, 200, zz.Body(zz.JO().With("access_token", zz.JS("at")))), nil
	}
	return nil, errors.New("no such host")
}

const zzURLChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"

// The client secret and the other fields of an OidcConfig.
//
//verif:bound=one_object_and_one_secret,_names_of_at_most_40_(60)_characters,_ids_and_URLs_of_at_most_60,_scopes_of_60_and_secrets_of_100_characters,_at_most_5_scopes,_cluster_up_or_down budget=80 tbudget=300
func Verif_C19_secret() {
	max := 40
	if zz.Thorough() {
		max = 60
	}
	idp := &zzIdp{}
	zz.SetTransport(&zz.Transport{F: idp.RoundTrip})
	c := &zzCluster{
		ns:    zz.StringIn("secret.ns", zzNameChars, 1, max),
		name:  zz.StringIn("secret.name", zzNameChars, 1, max),
		key:   zz.StringIn("secret.key", zzNameChars, 1, max),
		value: zz.StringIn("secret.value", zzURLChars, 0, 100),
	}
	c.down = zz.Choose("down", 2) == 1
	ns, name := zz.StringIn("ns", zzNameChars, 1, max), zz.StringIn("name", zzNameChars, 1, max)
	spec := v1.OidcConfigSpec{
		ClientName:   zz.StringIn("given", zzNameChars, 0, 8),
		ClientID:     zz.StringIn("id", zzURLChars, 1, 60),
		DiscoveryURL: "https://idp/d/" + zz.StringIn("discovery", zzURLChars, 1, 60),
		ClientSecret: zz.StringIn("plain", zzURLChars, 0, 100),
		ClientSecretRef: v1.ClientSecretRef{
			Name: zz.StringIn("ref.name", zzNameChars, 0, max),
			Key:  zz.StringIn("ref.key", zzNameChars, 0, max),
		},
	}
	post := false
	switch zz.Choose("method", 3) {
	case 1:
		spec.AuthMethod = "client_secret_basic"
	case 2:
		spec.AuthMethod = "client_secret_post"
		post = true
	}
	scope := "openid profile email"
	switch zz.Choose("scopes", 4) {
	case 1:
		spec.Scopes = []string{zz.StringIn("scope0", zzNameChars, 1, 60)}
		scope = spec.Scopes[0]
	case 2:
		spec.Scopes = []string{zz.StringIn("scope0", zzNameChars, 1, 60), "openid"}
		scope = spec.Scopes[0] + " openid"
	case 3:
		spec.Scopes = []string{"openid", "a:b", zz.StringIn("scope0", zzNameChars, 1, 60), "profile", "z"}
		scope = "openid a:b " + spec.Scopes[2] + " profile z"
	}
	discovery, id, plain, ref := spec.DiscoveryURL, spec.ClientID, spec.ClientSecret, spec.ClientSecretRef
	store := storepolicy.New()
	h := handler.New(store, c)
	obj := &v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: ns, Name: name}, Spec: spec}
	h.HandleAddUpdateEvent(obj)

	resolves := zz.And(ref.Name != "", ref.Key != "", !c.down, ns == c.ns, ref.Name == c.name, ref.Key == c.key, c.value != "")
	want := zz.IteStr(resolves, c.value, plain)
	check := func(want string) {
		cl := store.GetClient(ns + "/" + name)
		zz.Assert(cl != nil, "the client is not available under its name")
		if cl == nil {
			return
		}
		zz.Assert(cl.Name() == ns+"/"+name, "the client has another name")
		zz.Assert(cl.ID() == id, "another client id")
		zz.Assert(cl.Secret() == want, "the client secret is not the one configured")
		zz.Assert(cl.Scope() == scope, "other scopes than configured")
		tokens := idp.tokens
		t, err := cl.ExchangeGrantCode("code", "https://app/cb")
		zz.Assert(err == nil && t != nil && idp.tokens == tokens+1, "the client cannot exchange a code")
		zz.Assert(idp.tokenURL == "https://idp/t/"+discovery[len("https://idp/d/"):], "another provider than configured")
		if post {
			zz.Reach("client_secret_post")
			zz.Assert(zz.And(len(idp.form["client_id"]) == 1, len(idp.form["client_secret"]) == 1, !idp.basic), "credentials not sent as configured")
			if len(idp.form["client_secret"]) == 1 && len(idp.form["client_id"]) == 1 {
				zz.Assert(zz.And(idp.form["client_id"][0] == id, idp.form["client_secret"][0] == want), "other credentials than configured")
			}
		} else {
			zz.Reach("client_secret_basic")
			zz.Assert(zz.And(len(idp.form["client_secret"]) == 0, idp.basic, idp.user == id, idp.pass == want), "credentials not sent as configured")
		}
		ks := cl.AuthorizationServer().KeySet()
		zz.Assert(ks != nil && ks.PublicKeyURL() == "https://idp/k/"+discovery[len("https://idp/d/"):], "the keys are not those of the provider")
	}
	check(want)
	for _, u := range idp.fetched {
		zz.Assert(u == discovery, "another discovery document than configured")
	}
	if zz.Fork(resolves) {
		zz.Reach("secret from the reference")
		// the same object again, after the secret has been deleted
		c.gone = true
		h.HandleAddUpdateEvent(obj)
		check(plain)
	} else if plain != "" {
		zz.Reach("secret from the object")
	}
}

// A secret is used as it is written, whatever its bytes.
//
//verif:bound=a_secret_of_at_most_3_(5)_bytes_of_any_value_from_a_reference_or_from_the_object budget=30 tbudget=60
func Verif_C19_text() {
	max := 3
	if zz.Thorough() {
		max = 5
	}
	idp := &zzIdp{}
	zz.SetTransport(&zz.Transport{F: idp.RoundTrip})
	text := zz.Bytes("secret", max)
	zz.Assume(text != "")
	c := &zzCluster{ns: "ns", name: "s", key: "k", value: text}
	spec := v1.OidcConfigSpec{ClientID: "id", DiscoveryURL: "https://idp/d/x"}
	if zz.Choose("reference", 2) == 1 {
		spec.ClientSecretRef = v1.ClientSecretRef{Name: "s", Key: "k"}
	} else {
		spec.ClientSecret = text
	}
	store := storepolicy.New()
	handler.New(store, c).HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "o"}, Spec: spec})
	cl := store.GetClient("ns/o")
	zz.Assert(cl != nil, "the client is not available under its name")
	zz.Assert(cl.Secret() == text, "the client secret is not the one configured")
	zz.Reach("secret of any bytes")
}

type zzObject struct {
	ns, name string
	jwt      string // URL, "" when absent
	oidc     string // client id, "" when absent
}

// Objects come and go under their own names.
//
//verif:bound=2_objects_of_any_names_(namespace_and_name_of_at_most_40_characters),_3_(4)_events_of_either_kind budget=80 tbudget=400
func Verif_C19_events() {
	steps := 3
	if zz.Thorough() {
		steps = 4
	}
	idp := &zzIdp{}
	zz.SetTransport(&zz.Transport{F: idp.RoundTrip})
	store := storepolicy.New()
	h := handler.New(store, &zzCluster{gone: true})
	var objs []*zzObject
	for i := 0; i < 2; i++ {
		l := "o" + strconv.Itoa(i)
		objs = append(objs, &zzObject{ns: zz.StringIn(l+".ns", zzNameChars, 1, 40), name: zz.StringIn(l+".name", zzNameChars, 1, 40)})
	}
	zz.Assume(zz.Or(objs[0].ns != objs[1].ns, objs[0].name != objs[1].name))
	for s := 0; s < steps; s++ {
		l := "e" + strconv.Itoa(s)
		o := objs[zz.Choose(l+".object", 2)]
		kind := zz.Choose(l+".kind", 4)
		meta := metav1.ObjectMeta{Namespace: o.ns, Name: o.name}
		switch kind {
		case 0:
			o.jwt = "https://idp/k/" + zz.StringIn(l+".url", zzURLChars, 1, 40)
			h.HandleAddUpdateEvent(&v1.JwtConfig{ObjectMeta: meta, Spec: v1.JwtConfigSpec{JwksURL: o.jwt}})
		case 1:
			o.oidc = zz.StringIn(l+".id", zzURLChars, 1, 40)
			h.HandleAddUpdateEvent(&v1.OidcConfig{ObjectMeta: meta, Spec: v1.OidcConfigSpec{ClientID: o.oidc, DiscoveryURL: "https://idp/d/x"}})
		case 2:
			o.jwt = ""
			h.HandleDeleteEvent(policy.CrdKey{Id: o.ns + "/" + o.name, CrdType: v1.JWTCONFIG})
		case 3:
			o.oidc = ""
			h.HandleDeleteEvent(policy.CrdKey{Id: o.ns + "/" + o.name, CrdType: v1.OIDCCONFIG})
		}
	}
	for _, o := range objs {
		n := o.ns + "/" + o.name
		k, c := store.GetKeySet(n), store.GetClient(n)
		if o.jwt == "" {
			zz.Assert(k == nil, "a JwtConfig that does not exist is available")
		} else {
			zz.Reach("JwtConfig available")
			zz.Assert(k != nil && k.PublicKeyURL() == o.jwt, "a JwtConfig is not available as last written")
		}
		if o.oidc == "" {
			zz.Assert(c == nil, "an OidcConfig that does not exist is available")
		} else {
			zz.Reach("OidcConfig available")
			zz.Assert(c != nil && c.ID() == o.oidc, "an OidcConfig is not available as last written")
			zz.Assert(c != nil && c.Name() == n, "an OidcConfig is available under another name")
		}
	}
	other := zz.StringIn("other", zzNameChars+"/", 0, 5)
	zz.Assume(zz.And(other != objs[0].ns+"/"+objs[0].name, other != objs[1].ns+"/"+objs[1].name))
	zz.Assert(store.GetKeySet(other) == nil && store.GetClient(other) == nil, "a configuration is available under a name nobody gave")
}
