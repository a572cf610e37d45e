From c3c8084f5729f672afa3cbfa324dbd127e66dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 01/34] fix: store a policy under its own path, not in the
 nearest enclosing prefix's entry

---
 adapter/policy/store/policy/localstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..2e396e6 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -94,7 +94,7 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From 9659410c11105b67f54a8ae39534dec6de3d5441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 02/34] fix: an entry without a policy for the method no longer
 hides an enclosing prefix policy

---
 adapter/policy/store/policy/localstore.go | 32 ++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 2e396e6..073bdac 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"strings"
+
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
@@ -71,14 +73,16 @@ func (l *LocalStore) DeleteClient(clientName string) {
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
-		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
-		if ok {
-			result, present := actions[endpoint.Method]
-			if present { // found actions for method
+		// the nearest entry may hold no policy for the method: it must not hide an enclosing prefix
+		for _, path := range coveringPaths(endpoint.Path) {
+			actions, ok := (l.policies[endpoint.Service].Get(path)).(policy.Actions)
+			if !ok {
+				continue
+			}
+			if result := actions[endpoint.Method]; len(result.Actions) > 0 { // found actions for method
 				return result
 			}
-			result, present = actions[policy.ALL]
-			if present { // check if actions are set for ALL
+			if result := actions[policy.ALL]; len(result.Actions) > 0 { // check if actions are set for ALL
 				return result
 			}
 		}
@@ -86,6 +90,22 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	return policy.NewRoutePolicy()
 }
 
+// coveringPaths returns the paths and prefix patterns that cover a path, most specific first
+func coveringPaths(path string) []string {
+	paths := []string{path}
+	for prefix := path; ; {
+		paths = append(paths, prefix+"/*")
+		if prefix == "" {
+			return paths
+		}
+		if i := strings.LastIndex(prefix, "/"); i > 0 {
+			prefix = prefix[:i]
+		} else {
+			prefix = ""
+		}
+	}
+}
+
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
-- 
2.43.0


From 596eb7f223877fca58ae874cf99ef163bbcfdc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 03/34] fix: strip only the trailing callback or logout suffix
 and treat the remaining empty path as the root

---
 adapter/policy/engine/engine.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..a6c3c79 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -53,9 +53,12 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 
 	// Strip custom path components
 	if strings.HasSuffix(target.Path, callbackEndpoint) {
-		target.Path = strings.Split(target.Path, callbackEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, callbackEndpoint)
 	} else if strings.HasSuffix(target.Path, logoutEndpoint) {
-		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
+		target.Path = strings.TrimSuffix(target.Path, logoutEndpoint)
+	}
+	if target.Path == "" {
+		target.Path = "/"
 	}
 
 	// Get All policies protecting target
-- 
2.43.0


From 5f6bf92b0447e90489ff37d099e6b8b63af7ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 04/34] fix: a policy update retracts endpoints it no longer
 declares and a removal restores other policies on them

---
 .../handler/crdeventhandler/add_event.go      |  8 +---
 .../handler/crdeventhandler/delete_event.go   | 11 +----
 adapter/policy/store/policy/localstore.go     | 47 +++++++++++++++++++
 adapter/policy/store/policy/policystore.go    |  2 +
 4 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..39f939a 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -8,7 +8,6 @@ import (
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
-	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	storepolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
 )
 
@@ -59,11 +58,8 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
 	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
-	for _, policies := range parsedPolicies {
-		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
-		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
-	}
-	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
+	zap.S().Debug("Setting policy for endpoints", parsedPolicies)
+	e.Store.ReplacePolicy(mappingId, parsedPolicies)
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 61ed5a4..1758273 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -36,16 +36,7 @@ func (e *OidcConfigDeleteEventHandler) HandleDeleteEvent() {
 }
 
 func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
-	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
-	for _, policies := range parsedPolicies {
-		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
-		if storedPolicy.PolicyReference == e.Key {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
-	}
-	// remove entry from policyMapping
-	e.Store.DeletePolicyMapping(e.Key)
+	e.Store.ReplacePolicy(e.Key, nil)
 	zap.S().Debug("Delete policy completed")
 }
 
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 073bdac..9c9b2c4 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,7 @@
 package policy
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
@@ -142,3 +143,49 @@ func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMappin
 	}
 	s.policyMappings[name] = mapping
 }
+
+// ReplacePolicy puts the endpoints of the mapping in force for the named policy. Endpoints of its previous
+// version that it no longer declares are handed back to the other policies declaring them, if any.
+func (s *LocalStore) ReplacePolicy(name string, mapping []policy.PolicyMapping) {
+	previous := s.GetPolicyMapping(name)
+	s.DeletePolicyMapping(name)
+	if mapping != nil {
+		s.AddPolicyMapping(name, mapping)
+	}
+	current := make(map[policy.Endpoint]bool)
+	for _, m := range mapping {
+		current[m.Endpoint] = true
+		s.SetPolicies(m.Endpoint, policy.RoutePolicy{PolicyReference: name, Actions: m.Actions})
+	}
+	for _, m := range previous {
+		if !current[m.Endpoint] && s.storedReference(m.Endpoint) == name {
+			s.SetPolicies(m.Endpoint, s.declaredPolicy(m.Endpoint))
+		}
+	}
+}
+
+// storedReference returns the name of the policy stored for exactly the given endpoint
+func (s *LocalStore) storedReference(endpoint policy.Endpoint) string {
+	if s.policies == nil || s.policies[endpoint.Service] == nil {
+		return ""
+	}
+	actions, _ := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions)
+	return actions[endpoint.Method].PolicyReference
+}
+
+// declaredPolicy returns what the first policy, by name, declares for the endpoint
+func (s *LocalStore) declaredPolicy(endpoint policy.Endpoint) policy.RoutePolicy {
+	names := make([]string, 0, len(s.policyMappings))
+	for name := range s.policyMappings {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		for _, m := range s.policyMappings[name] {
+			if m.Endpoint == endpoint && len(m.Actions) > 0 {
+				return policy.RoutePolicy{PolicyReference: name, Actions: m.Actions}
+			}
+		}
+	}
+	return policy.NewRoutePolicy()
+}
diff --git a/adapter/policy/store/policy/policystore.go b/adapter/policy/store/policy/policystore.go
index 228ce57..8b63941 100644
--- a/adapter/policy/store/policy/policystore.go
+++ b/adapter/policy/store/policy/policystore.go
@@ -20,4 +20,6 @@ type PolicyStore interface {
 	GetPolicyMapping(policy string) []policy.PolicyMapping
 	AddPolicyMapping(policy string, mapping []policy.PolicyMapping)
 	DeletePolicyMapping(policy string)
+	// ReplacePolicy puts exactly the endpoints of the mapping in force for the named policy
+	ReplacePolicy(name string, mapping []policy.PolicyMapping)
 }
-- 
2.43.0


From 72a7171ae98e9d6066f20d285950db0e3f6dbfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 05/34] fix: refuse a published RSA exponent that does not fit
 instead of truncating it

---
 adapter/authserver/keyset/key.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/adapter/authserver/keyset/key.go b/adapter/authserver/keyset/key.go
index 3b1f358..1fe6a24 100644
--- a/adapter/authserver/keyset/key.go
+++ b/adapter/authserver/keyset/key.go
@@ -4,7 +4,6 @@ import (
 	"crypto"
 	"crypto/rsa"
 	"encoding/base64"
-	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
@@ -68,15 +67,14 @@ func (k *key) decodePublicKey() (crypto.PublicKey, error) {
 		if err != nil {
 			return nil, errors.New("malformed JWK RSA key exponent")
 		}
-		if len(data) < 4 {
-			ndata := make([]byte, 4)
-			copy(ndata[4-len(data):], data)
-			data = ndata
+		exponent := new(big.Int).SetBytes(data)
+		if !exponent.IsInt64() || int64(int(exponent.Int64())) != exponent.Int64() {
+			return nil, errors.New("malformed JWK RSA key exponent")
 		}
 
 		pubKey := &rsa.PublicKey{
 			N: &big.Int{},
-			E: int(binary.BigEndian.Uint32(data)),
+			E: int(exponent.Int64()),
 		}
 
 		data, err = safeDecode(k.N)
-- 
2.43.0


From e18fd479786c0b352edf56adef49c8a7930268ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 06/34] fix: neither apply nor remove an object whose state
 could not be read from the cache

---
 adapter/policy/controller/controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 18f76d8..c20b6ce 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -104,6 +104,8 @@ func (c *Controller) processNextItem() bool {
 			c.Queue.Forget(key)
 			utilruntime.HandleError(err)
 		}
+		// the state of the object is unknown: neither apply nor remove anything
+		return true
 	}
 
 	// if the item doesn't exist then it was deleted and we need to fire off the handler's
-- 
2.43.0


From e89e6895b32ef5e93f98d05e517de78ac94ebf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 07/34] fix: do not pin an empty key URL for a provider that is
 unreachable when its OidcConfig is created

---
 adapter/policy/handler/crdeventhandler/add_event.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 39f939a..f97e1dc 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -45,8 +45,10 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// Without a discovery document there is no key URL yet: the server picks up its keys once discovery succeeds
+	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
+		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
+	}
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From cfc846064c91402a9117dea838dae63012631814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 08/34] fix: do not write the resolved client secret into the
 cached OidcConfig object

---
 .../policy/handler/crdeventhandler/add_event.go    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index f97e1dc..e795841 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -40,18 +40,20 @@ func (e *JwtConfigAddEventHandler) HandleAddUpdateEvent() {
 
 func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update OidcConfig", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
-	e.Obj.Spec.ClientName = e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
-	if e.Obj.Spec.AuthMethod == "" {
-		e.Obj.Spec.AuthMethod = "client_secret_basic"
+	// The object belongs to the informer cache and may be handled again: it is not modified
+	spec := e.Obj.Spec
+	spec.ClientName = e.Obj.ObjectMeta.Namespace + "/" + e.Obj.ObjectMeta.Name
+	if spec.AuthMethod == "" {
+		spec.AuthMethod = "client_secret_basic"
 	}
-	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
+	authorizationServer := authserver.New(spec.DiscoveryURL)
 	// Without a discovery document there is no key URL yet: the server picks up its keys once discovery succeeds
 	if jwksURL := authorizationServer.JwksEndpoint(); jwksURL != "" {
 		authorizationServer.SetKeySet(keyset.New(jwksURL, nil))
 	}
-	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
+	spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
-	oidcClient := client.New(e.Obj.Spec, authorizationServer)
+	oidcClient := client.New(spec, authorizationServer)
 	e.Store.AddClient(oidcClient.Name(), oidcClient)
 	zap.L().Info("OidcConfig created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.Name), zap.String("namespace", e.Obj.Namespace))
 }
-- 
2.43.0


From 55a630861cb17334b3737d71a13a569ef19892eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:59 +0000
Subject: [PATCH 09/34] fix: copy scopes, rules and rule values in the
 generated deep copies instead of sharing them

---
 .../apis/policies/v1/zz_generated.deepcopy.go | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
index df10e7a..e3b1dfd 100644
--- a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
+++ b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
@@ -121,7 +121,7 @@ func (in *OidcConfig) DeepCopyInto(out *OidcConfig) {
 	*out = *in
 	out.TypeMeta = in.TypeMeta
 	in.ObjectMeta.DeepCopyInto(&out.ObjectMeta)
-	out.Spec = in.Spec
+	in.Spec.DeepCopyInto(&out.Spec)
 	return
 }
 
@@ -180,6 +180,11 @@ func (in *OidcConfigList) DeepCopyObject() runtime.Object {
 func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
 	*out = *in
 	out.ClientSecretRef = in.ClientSecretRef
+	if in.Scopes != nil {
+		in, out := &in.Scopes, &out.Scopes
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
 	return
 }
 
@@ -199,7 +204,9 @@ func (in *PathConfig) DeepCopyInto(out *PathConfig) {
 	if in.Policies != nil {
 		in, out := &in.Policies, &out.Policies
 		*out = make([]PathPolicy, len(*in))
-		copy(*out, *in)
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
 	}
 	return
 }
@@ -217,6 +224,13 @@ func (in *PathConfig) DeepCopy() *PathConfig {
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *PathPolicy) DeepCopyInto(out *PathPolicy) {
 	*out = *in
+	if in.Rules != nil {
+		in, out := &in.Rules, &out.Rules
+		*out = make([]Rule, len(*in))
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
+	}
 	return
 }
 
@@ -313,6 +327,27 @@ func (in *PolicySpec) DeepCopy() *PolicySpec {
 	return out
 }
 
+// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
+func (in *Rule) DeepCopyInto(out *Rule) {
+	*out = *in
+	if in.Values != nil {
+		in, out := &in.Values, &out.Values
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
+	return
+}
+
+// DeepCopy is an autogenerated deepcopy function, copying the receiver, creating a new Rule.
+func (in *Rule) DeepCopy() *Rule {
+	if in == nil {
+		return nil
+	}
+	out := new(Rule)
+	in.DeepCopyInto(out)
+	return out
+}
+
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *TargetElement) DeepCopyInto(out *TargetElement) {
 	*out = *in
-- 
2.43.0


From 36e5c52e01ba3887065d00be89229781fbdd54a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:49 +0000
Subject: [PATCH 10/34] fix: a rule without a source also addresses an opaque
 access token

---
 adapter/validator/validator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..0769c38 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -168,7 +168,7 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	}
 
 	for _, rule := range rules {
-		if rule.Source == Access.String() {
+		if rule.Source == Access.String() || rule.Source == "" {
 			zap.L().Warn("Unauthorized - rules configured for opaque access token")
 			return errors.BadRequestHTTPException("Unauthorized - rules configured for opaque access token")
 		}
-- 
2.43.0


From 8b4139a7cb799f66e401f9bd97e30e87e283c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 11/34] fix: compare numeric claims by their exact value
 instead of rounding them to whole numbers

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 0769c38..84c325f 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -317,7 +317,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 		m[strconv.FormatBool(t)] = struct{}{}
 		return m, nil
 	case float64:
-		m[strconv.FormatFloat(t, 'f', 0, 64)] = struct{}{}
+		m[strconv.FormatFloat(t, 'f', -1, 64)] = struct{}{}
 		return m, nil
 	case string:
 		for _, v := range strings.Split(t, " ") {
@@ -330,7 +330,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 			case string:
 				m[s2] = struct{}{}
 			case float64:
-				m[strconv.FormatFloat(s2, 'f', 0, 64)] = struct{}{}
+				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}
 			case bool:
 				m[strconv.FormatBool(s2)] = struct{}{}
 			default:
-- 
2.43.0


From 41cfebeae9cdbf89727ff04a9dadd37fa6868653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 12/34] fix: name the required scopes in the scope attribute of
 the challenge, as RFC 6750 defines it

---
 adapter/strategy/api/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/strategy/api/api.go b/adapter/strategy/api/api.go
index f8cb1ac..b25fd44 100644
--- a/adapter/strategy/api/api.go
+++ b/adapter/strategy/api/api.go
@@ -118,7 +118,7 @@ func buildErrorResponse(err *errors.OAuthError) *authnz.HandleAuthnZResponse {
 	if err != nil {
 		scopes := err.ScopeStr()
 		if scopes != "" {
-			header += ", scopes=\"" + scopes + "\""
+			header += ", scope=\"" + scopes + "\""
 		}
 		if err.Code != "" {
 			header += ", error=\"" + err.Code + "\""
-- 
2.43.0


From e9909eed1a7ce8a7aef30136c3b22973490344ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 13/34] fix: report an expired access token as expired so that
 its session is refreshed

---
 adapter/validator/validator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 84c325f..a6d8680 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -95,7 +95,12 @@ func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks key
 			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 		}
 		// if access token plain contains of 3 dots
-		return validateAccessTokenString(userInfoEndpoint, tokenStr, rules)
+		oauthErr := validateAccessTokenString(userInfoEndpoint, tokenStr, rules)
+		if oauthErr != nil && err.Error() == errors.ExpiredToken {
+			// report the expiry so that the session can be refreshed
+			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
+		}
+		return oauthErr
 	}
 
 	// Validate token
-- 
2.43.0


From ef5c88980548af37460a385b277d7b34b56883d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 14/34] fix: keep the refresh token of a session when a refresh
 does not issue a new one

---
 adapter/strategy/web/web.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..3bcac0f 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -210,6 +210,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 		cookie := generateSessionIDCookie(c, &sessionID)
+		if tokens.RefreshToken == "" {
+			// The previous refresh token stays in force - https://tools.ietf.org/html/rfc6749#section-6
+			tokens.RefreshToken = session.RefreshToken
+		}
 		w.tokenCache.Store(cookie.Value, tokens)
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
-- 
2.43.0


From dc7663a964ba86254251c4b24783d41004c982fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 15/34] fix: redirect to the whole requested or configured URL
 after a login

---
 adapter/strategy/web/web.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 3bcac0f..f144a84 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -319,11 +319,16 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 
 	zap.L().Debug("OIDC callback: created new active session: ", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
 
-	if action.RedirectUri != "" {
-		redirectURI = action.RedirectUri
+	// Return to the originally requested URL, unless the policy names another
+	redirectURL := action.RedirectUri
+	if redirectURL == "" {
+		redirectURL = redirectURI
+		for strings.HasSuffix(redirectURL, callbackEndpoint) {
+			redirectURL = strings.TrimSuffix(redirectURL, callbackEndpoint)
+		}
 	}
 
-	return buildSuccessRedirectResponse(redirectURI, []*http.Cookie{cookie}), nil
+	return buildSuccessRedirectResponse(redirectURL, []*http.Cookie{cookie}), nil
 }
 
 // handleAuthorizationCodeFlow initiates an OAuth 2.0 / OIDC authorization_code grant flow.
@@ -488,7 +493,7 @@ func (w *WebStrategy) parseAndValidateCookie(cookie *http.Cookie) *OidcCookie {
 // to the provided url with the accompanying cookie headers
 func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *authnz.HandleAuthnZResponse {
 	headers := make(map[string]string)
-	headers[location] = strings.Split(redirectURI, callbackEndpoint)[0]
+	headers[location] = redirectURI
 	for _, cookie := range cookies {
 		headers[setCookie] = cookie.String()
 		zap.S().Debugf("Appending cookie to response: %s", cookie.String())
-- 
2.43.0


From cddc4a8342b4f2e04a6f68b5b8b697306ef2b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 16/34] fix: retain the query of the authorization endpoint in
 login redirects

---
 adapter/strategy/web/utils.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..444d299 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -55,14 +55,13 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 		return ""
 	}
 
-	// Prepare Query Parameters
-	params := url.Values{
-		"client_id":     {c.ID()},
-		"response_type": {"code"},
-		"redirect_uri":  {redirectURI},
-		"scope":         {c.Scope()},
-		"state":         {state},
-	}
+	// Prepare Query Parameters, retaining those of the endpoint - https://tools.ietf.org/html/rfc6749#section-3.1
+	params := baseUrl.Query()
+	params.Set("client_id", c.ID())
+	params.Set("response_type", "code")
+	params.Set("redirect_uri", redirectURI)
+	params.Set("scope", c.Scope())
+	params.Set("state", state)
 
 	// Add Query Parameters to the URL
 	baseUrl.RawQuery = params.Encode() // Escape Query Parameters
-- 
2.43.0


From 3f243e1c31f35203fc1940d9245123b13fbd06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 17/34] fix: do not redirect to log in while the authorization
 endpoint is unknown

---
 adapter/strategy/web/utils.go | 7 ++++++-
 adapter/strategy/web/web.go   | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index 444d299..9125041 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -49,7 +49,12 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 		zap.L().Warn("Authorization server has not been configured for client", zap.Error(errors.New("authorization server has not been configured")), zap.String("client_name", c.Name()))
 		return ""
 	}
-	baseUrl, err := url.Parse(server.AuthorizationEndpoint())
+	endpoint := server.AuthorizationEndpoint()
+	if endpoint == "" {
+		zap.L().Warn("Authorization endpoint is not known", zap.String("client_name", c.Name()))
+		return ""
+	}
+	baseUrl, err := url.Parse(endpoint)
 	if err != nil {
 		zap.L().Warn("Malformed Authorization URL", zap.Error(err))
 		return ""
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index f144a84..0b4e27b 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -340,6 +340,10 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 		zap.L().Info("Could not generate state parameter", zap.Error(err), zap.String("client_name", action.Client.Name()))
 		return nil, err
 	}
+	authorizationURL := generateAuthorizationURL(action.Client, redirectURI, state)
+	if authorizationURL == "" {
+		return nil, errors.New("could not build the authorization request")
+	}
 	zap.S().Debugf("Initiating redirect to identity provider using redirect URL: %s", redirectURI)
 	return &authnz.HandleAuthnZResponse{
 		Result: &v1beta1.CheckResult{
@@ -349,7 +353,7 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 				Details: []*types.Any{status.PackErrorDetail(&policy.DirectHttpResponse{
 					Code: policy.Found, // Response Mixer remaps on request
 					Headers: map[string]string{
-						location:  generateAuthorizationURL(action.Client, redirectURI, state),
+						location:  authorizationURL,
 						setCookie: stateCookie.String(),
 					},
 				})},
-- 
2.43.0


From 738e7c9ed87fcc3c83efcb9f1d593c6502d69061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 18/34] fix: redirect to the path before the suffix after a
 logout, and only to this host

---
 adapter/strategy/web/web.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 0b4e27b..f68b3dd 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -251,7 +251,8 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.tokenCache.Delete(cookie.Value)
 	}
 
-	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	// Return to the path before the suffix. A single slash at its start keeps the browser on this host.
+	redirectURL := "/" + strings.TrimLeft(strings.TrimSuffix(r.Instance.Request.Path, logoutEndpoint), "/")
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From 1713994efb745445ed186620677b84a8fd371c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 19/34] fix: do not settle on a cookie key secret without
 usable keys, nor create one

---
 adapter/strategy/web/web.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index f68b3dd..049ebaf 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -391,7 +391,8 @@ func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
 		return w.kubeClient.CoreV1().Secrets(defaultNamespace).Get(defaultKeySecret, metav1.GetOptions{})
 	})
 
-	if err != nil {
+	created := err != nil
+	if created {
 		zap.S().Infof("Secret %v not found: %v. Another will be generated.", defaultKeySecret, err)
 		secret, err = w.generateKeySecret(w.ctx.HashKeySize.Value, w.ctx.BlockKeySize.Value)
 		if err != nil {
@@ -401,8 +402,20 @@ func (w *WebStrategy) generateSecureCookie() (Encryptor, error) {
 	}
 
 	if s, ok := secret.(*v1.Secret); ok {
+		sc := securecookie.New(s.Data[hashKey], s.Data[blockKey])
+		if !created {
+			// Do not settle on a secret whose keys cannot sign and encrypt
+			if len(s.Data[hashKey]) == 0 || len(s.Data[blockKey]) == 0 {
+				zap.S().Errorf("Secret %v does not contain the keys %v and %v", defaultKeySecret, hashKey, blockKey)
+				return nil, errors.New("signing / encryption secret does not contain the keys")
+			}
+			if _, err := sc.Encode(sessionCookie, []byte{}); err != nil {
+				zap.S().Errorf("Keys of secret %v cannot be used: %v", defaultKeySecret, err)
+				return nil, err
+			}
+		}
 		zap.S().Infof("Synced secret: %v", defaultKeySecret)
-		w.encrpytor = securecookie.New(s.Data[hashKey], s.Data[blockKey])
+		w.encrpytor = sc
 		return w.encrpytor, nil
 	} else {
 		zap.S().Error("Could not convert interface to secret")
@@ -416,6 +429,9 @@ func (w *WebStrategy) generateKeySecret(hashKeySize int, blockKeySize int) (inte
 	data := make(map[string][]byte)
 	data[hashKey] = securecookie.GenerateRandomKey(hashKeySize)
 	data[blockKey] = securecookie.GenerateRandomKey(blockKeySize)
+	if data[hashKey] == nil || data[blockKey] == nil {
+		return nil, errors.New("could not generate signing / encryption keys")
+	}
 
 	newSecret := v1.Secret{
 		ObjectMeta: metav1.ObjectMeta{
-- 
2.43.0


From 5bd53cd03eef117222634e3769fddd589f2c3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 20/34] fix: read the cookie encryptor under its lock

---
 adapter/strategy/web/web.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 049ebaf..313fd22 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -57,8 +57,8 @@ type WebStrategy struct {
 	tokenUtil  validator.TokenValidator
 	kubeClient kubernetes.Interface
 
-	// mutex protects all fields below
-	mutex      *sync.Mutex
+	// mutex protects encrpytor
+	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
 }
@@ -81,7 +81,6 @@ func New(ctx *config.Config, kubeClient kubernetes.Interface) strategy.Strategy
 		ctx:        ctx,
 		tokenUtil:  validator.NewTokenValidator(adapterPolicy.OIDC),
 		kubeClient: kubeClient,
-		mutex:      &sync.Mutex{},
 		tokenCache: new(sync.Map),
 	}
 
@@ -366,20 +365,13 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 // getSecureCookie retrieves the SecureCookie encryption struct in a
 // thread safe manner.
 func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
-	// Allow all threads to check if instance already exists
-	if w.encrpytor != nil {
-		return w.encrpytor, nil
-	}
 	w.mutex.Lock()
-	// Once this thread has the lock check again to see if it had been set while waiting
+	defer w.mutex.Unlock()
 	if w.encrpytor != nil {
-		w.mutex.Unlock()
 		return w.encrpytor, nil
 	}
 	// We need to generate a new key set
-	sc, err := w.generateSecureCookie()
-	w.mutex.Unlock()
-	return sc, err
+	return w.generateSecureCookie()
 }
 
 // generateSecureCookie instantiates a SecureCookie instance using either the preconfigured
-- 
2.43.0


From ea0df4ba36a7a5ae6f9875f9fc758be544bd4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 21/34] fix: guard the random source of states and session ids

---
 adapter/strategy/web/utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index 9125041..bfbe077 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -5,6 +5,7 @@ import (
 	"math/rand"
 	"net/http"
 	"net/url"
+	"sync"
 	"time"
 	"unsafe"
 
@@ -21,10 +22,16 @@ const (
 	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
 )
 
-var src = rand.NewSource(time.Now().UnixNano())
+var (
+	// srcMutex protects src, which is not safe for concurrent use
+	srcMutex sync.Mutex
+	src      = rand.NewSource(time.Now().UnixNano())
+)
 
 // randString generates a random string of the given size
 func randString(n int) string {
+	srcMutex.Lock()
+	defer srcMutex.Unlock()
 	b := make([]byte, n)
 	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
 	for i, cache, remain := n-1, src.Int63(), letterIdxMax; i >= 0; {
-- 
2.43.0


From b998ceeb84cda14ae48026f470de0cfe5aaecd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 22/34] fix: do not undo a logout by refreshing the session

---
 adapter/strategy/web/web.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 313fd22..4b76f7c 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -61,6 +61,8 @@ type WebStrategy struct {
 	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
+	// sessionMutex keeps a logout from being undone by the refresh of the session's tokens
+	sessionMutex sync.Mutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -165,7 +167,7 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		}
 
 		zap.L().Debug("Tokens are invalid - starting a new session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value), zap.Error(validationErr))
-		w.tokenCache.Delete(sessionCookie.Value)
+		w.endSession(sessionCookie.Value)
 		return nil, nil
 	}
 
@@ -213,7 +215,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 			// The previous refresh token stays in force - https://tools.ietf.org/html/rfc6749#section-6
 			tokens.RefreshToken = session.RefreshToken
 		}
-		w.tokenCache.Store(cookie.Value, tokens)
+		if !w.updateSession(sessionID, tokens) {
+			zap.L().Debug("The session ended while its tokens were refreshed.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+			return nil, nil
+		}
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
 			Output: &authnz.OutputMsg{
@@ -224,6 +229,24 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	}
 }
 
+// updateSession replaces the tokens of a session, unless it has ended
+func (w *WebStrategy) updateSession(sessionID string, tokens *authserver.TokenResponse) bool {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	_, ok := w.tokenCache.Load(sessionID)
+	if ok {
+		w.tokenCache.Store(sessionID, tokens)
+	}
+	return ok
+}
+
+// endSession forgets a session
+func (w *WebStrategy) endSession(sessionID string) {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	w.tokenCache.Delete(sessionID)
+}
+
 // handleErrorCallback returns an Unauthenticated CheckResult
 func (w *WebStrategy) handleErrorCallback(err error) (*authnz.HandleAuthnZResponse, error) {
 	message := "internal server error"
@@ -247,7 +270,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 
 	if cookie, err := request.Cookie(cookieName); err == nil {
 		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
-		w.tokenCache.Delete(cookie.Value)
+		w.endSession(cookie.Value)
 	}
 
 	// Return to the path before the suffix. A single slash at its start keeps the browser on this host.
-- 
2.43.0


From 97d38c7a10266287ac526c12a035deddbbdf927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 23/34] fix: guard the store against concurrent requests and
 events

---
 adapter/policy/store/policy/localstore.go | 48 ++++++++++++++++++++---
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 9c9b2c4..48524cb 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -3,6 +3,7 @@ package policy
 import (
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
@@ -11,7 +12,10 @@ import (
 )
 
 // LocalStore is responsible for storing and managing policy/client data
+// Requests read it while configuration events change it.
 type LocalStore struct {
+	// mutex protects all fields below
+	mutex sync.RWMutex
 	// clients maps client_name -> client_config
 	clients map[string]client.Client // oidc config ClientName:Client
 	// policies maps endpoint -> list of actions
@@ -32,6 +36,8 @@ func New() PolicyStore {
 }
 
 func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.keysets != nil {
 		return l.keysets[clientName]
 	}
@@ -39,6 +45,8 @@ func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
 }
 
 func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets == nil {
 		l.keysets = make(map[string]keyset.KeySet)
 	}
@@ -46,6 +54,8 @@ func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
 }
 
 func (l *LocalStore) DeleteKeySet(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets != nil {
 		delete(l.keysets, clientName)
 	}
@@ -53,6 +63,8 @@ func (l *LocalStore) DeleteKeySet(clientName string) {
 
 
 func (l *LocalStore) GetClient(clientName string) client.Client {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.clients != nil {
 		return l.clients[clientName]
 	}
@@ -60,6 +72,8 @@ func (l *LocalStore) GetClient(clientName string) client.Client {
 }
 
 func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients == nil {
 		l.clients = make(map[string]client.Client)
 	}
@@ -67,12 +81,16 @@ func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
 }
 
 func (l *LocalStore) DeleteClient(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients != nil {
 		delete(l.clients, clientName)
 	}
 }
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		// the nearest entry may hold no policy for the method: it must not hide an enclosing prefix
 		for _, path := range coveringPaths(endpoint.Path) {
@@ -108,6 +126,13 @@ func coveringPaths(path string) []string {
 }
 
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	s.setPolicies(endpoint, actions)
+}
+
+// setPolicies is SetPolicies for callers that hold the lock
+func (s *LocalStore) setPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -125,6 +150,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 }
 
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
 	}
@@ -132,12 +159,21 @@ func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 }
 
 func (s *LocalStore) DeletePolicyMapping(policy string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings != nil {
 		delete(s.policyMappings, policy)
 	}
 }
 
 func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	s.addPolicyMapping(name, mapping)
+}
+
+// addPolicyMapping is AddPolicyMapping for callers that hold the lock
+func (s *LocalStore) addPolicyMapping(name string, mapping []policy.PolicyMapping) {
 	if s.policyMappings == nil {
 		s.policyMappings = make(map[string][]policy.PolicyMapping)
 	}
@@ -147,19 +183,21 @@ func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMappin
 // ReplacePolicy puts the endpoints of the mapping in force for the named policy. Endpoints of its previous
 // version that it no longer declares are handed back to the other policies declaring them, if any.
 func (s *LocalStore) ReplacePolicy(name string, mapping []policy.PolicyMapping) {
-	previous := s.GetPolicyMapping(name)
-	s.DeletePolicyMapping(name)
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	previous := s.policyMappings[name]
+	delete(s.policyMappings, name)
 	if mapping != nil {
-		s.AddPolicyMapping(name, mapping)
+		s.addPolicyMapping(name, mapping)
 	}
 	current := make(map[policy.Endpoint]bool)
 	for _, m := range mapping {
 		current[m.Endpoint] = true
-		s.SetPolicies(m.Endpoint, policy.RoutePolicy{PolicyReference: name, Actions: m.Actions})
+		s.setPolicies(m.Endpoint, policy.RoutePolicy{PolicyReference: name, Actions: m.Actions})
 	}
 	for _, m := range previous {
 		if !current[m.Endpoint] && s.storedReference(m.Endpoint) == name {
-			s.SetPolicies(m.Endpoint, s.declaredPolicy(m.Endpoint))
+			s.setPolicies(m.Endpoint, s.declaredPolicy(m.Endpoint))
 		}
 	}
 }
-- 
2.43.0


From 12d2f67327e7fd970e6007ada19b4a9dd6f23c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 24/34] fix: guard the discovered provider against concurrent
 requests

---
 adapter/authserver/authserver.go | 47 ++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..c4ccfc4 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 
 	"github.com/golang/groupcache/singleflight"
 	"go.uber.org/zap"
@@ -62,6 +63,10 @@ type RemoteService struct {
 	httpclient   *networking.HTTPClient
 	requestGroup singleflight.Group
 	initialized  bool
+	// configMutex protects DiscoveryConfig and initialized
+	configMutex sync.RWMutex
+	// jwksMutex protects jwks
+	jwksMutex sync.Mutex
 }
 
 // New creates a RemoteService returning a AuthorizationServerService interface
@@ -83,40 +88,44 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
-	_ = s.initialize()
-	if s.jwks == nil && s.JwksURL != "" {
-		s.jwks = keyset.New(s.JwksURL, s.httpclient)
+	jwksURL := s.JwksEndpoint()
+	s.jwksMutex.Lock()
+	defer s.jwksMutex.Unlock()
+	if s.jwks == nil && jwksURL != "" {
+		s.jwks = keyset.New(jwksURL, s.httpclient)
 	}
 	return s.jwks
 }
 
 // SetKeySet stores a JWKs in the OAuth server
 func (s *RemoteService) SetKeySet(jwks keyset.KeySet) {
+	s.jwksMutex.Lock()
+	defer s.jwksMutex.Unlock()
 	s.jwks = jwks
 }
 
 // JwksEndpoint returns the /publicKeys endpoint of the OAuth server
 func (s *RemoteService) JwksEndpoint() string {
 	_ = s.initialize()
-	return s.JwksURL
+	return s.config().JwksURL
 }
 
 // TokenEndpoint returns the /token endpoint of the OAuth server
 func (s *RemoteService) TokenEndpoint() string {
 	_ = s.initialize()
-	return s.TokenURL
+	return s.config().TokenURL
 }
 
 // AuthorizationEndpoint returns the /authorization endpoint of the OAuth server
 func (s *RemoteService) AuthorizationEndpoint() string {
 	_ = s.initialize()
-	return s.AuthURL
+	return s.config().AuthURL
 }
 
 // UserInfoEndpoint returns the /userinfo endpoint of the OAuth server
 func (s *RemoteService) UserInfoEndpoint() string {
 	_ = s.initialize()
-	return s.UserInfoURL
+	return s.config().UserInfoURL
 }
 
 // GetTokens performs a request to the token endpoint
@@ -140,7 +149,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	}
 
 	// Create request
-	req, err := http.NewRequest("POST", s.TokenURL, strings.NewReader(form.Encode()))
+	req, err := http.NewRequest("POST", s.config().TokenURL, strings.NewReader(form.Encode()))
 	if err != nil {
 		zap.L().Warn("Could not serialize HTTP request", zap.Error(err))
 		return nil, err
@@ -166,9 +175,23 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	return tokenResponse, nil
 }
 
+// config returns the configuration loaded from the discovery endpoint so far
+func (s *RemoteService) config() DiscoveryConfig {
+	s.configMutex.RLock()
+	defer s.configMutex.RUnlock()
+	return s.DiscoveryConfig
+}
+
+// isInitialized tells whether the configuration has been loaded
+func (s *RemoteService) isInitialized() bool {
+	s.configMutex.RLock()
+	defer s.configMutex.RUnlock()
+	return s.initialized
+}
+
 // initialize attempts to load the Client configuration from the discovery endpoint
 func (s *RemoteService) initialize() error {
-	if s.initialized {
+	if s.isInitialized() {
 		return nil
 	}
 
@@ -177,7 +200,7 @@ func (s *RemoteService) initialize() error {
 	// taking place at once. All threads coming into this call will wait for
 	// a single response, which can then be processed
 	_, err := s.requestGroup.Do(s.discoveryURL, func() (interface{}, error) {
-		if s.initialized {
+		if s.isInitialized() {
 			return http.StatusOK, nil
 		}
 		return s.loadDiscoveryEndpoint()
@@ -210,8 +233,10 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
-	s.initialized = true
+	s.configMutex.Lock()
 	s.DiscoveryConfig = *config
+	s.initialized = true
+	s.configMutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From a914cf696c245a8bcd767b7207a8efec88020f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 25/34] fix: guard the public keys against concurrent requests

---
 adapter/authserver/keyset/keyset.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index fd64a25..aa016c3 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -5,6 +5,7 @@ import (
 	"crypto"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"go.uber.org/zap"
 
@@ -27,6 +28,8 @@ type RemoteKeySet struct {
 
 	requestGroup singleflight.Group
 	publicKeys   map[string]crypto.PublicKey
+	// keysMutex protects publicKeys
+	keysMutex sync.RWMutex
 }
 
 ////////////////// constructor //////////////////////////
@@ -55,10 +58,17 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 
 // PublicKey returns the public key with the specified kid
 func (s *RemoteKeySet) PublicKey(kid string) crypto.PublicKey {
-	if key := s.publicKeys[kid]; key != nil {
+	if key := s.knownKey(kid); key != nil {
 		return key
 	}
 	_ = s.updateKeysGrouped()
+	return s.knownKey(kid)
+}
+
+// knownKey returns the key with the specified kid, if it has been retrieved
+func (s *RemoteKeySet) knownKey(kid string) crypto.PublicKey {
+	s.keysMutex.RLock()
+	defer s.keysMutex.RUnlock()
 	return s.publicKeys[kid]
 }
 
@@ -116,7 +126,9 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	zap.L().Info("Synced public keys", zap.String("url", s.publicKeyURL))
 
+	s.keysMutex.Lock()
 	s.publicKeys = keymap
+	s.keysMutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 9ffbdbc75825a47b6e8b9eeba59f85604eb8af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 26/34] fix: look a request's policy up once

---
 adapter/policy/engine/engine.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index a6c3c79..2c9c1a1 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -163,12 +163,12 @@ func createDefaultRules(action Action) []v1.Rule {
 	}
 }
 
-// endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target
+// endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target. The store
+// itself considers the policies for all methods and for enclosing prefixes: a single look up cannot be torn by
+// a concurrent change of the policies.
 func endpointsToCheck(target *authnz.TargetMsg) []policy.Endpoint {
 	service := policy.Service{Namespace: target.Namespace, Name: target.Service}
 	return []policy.Endpoint{
 		{Service: service, Path: target.Path, Method: policy.NewMethod(target.Method)},
-		{Service: service, Path: target.Path, Method: policy.ALL},
-		{Service: service, Path: "/*", Method: policy.ALL},
 	}
 }
-- 
2.43.0


From ffe4206ad6b6bae49557b30c9fed62b3491b420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:12 +0000
Subject: [PATCH 27/34] fix: bound the userinfo request and close its answer

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index a6d8680..cc2f340 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 )
@@ -152,7 +153,6 @@ func (*JwtTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset
 
 // validateAccessTokenString validates the access token string
 func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules []v1.Rule) *errors.OAuthError {
-	client := &http.Client{}
 	req, err := http.NewRequest("GET", userInfoEndpoint, nil)
 
 	if err != nil {
@@ -161,7 +161,7 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	}
 
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
-	res, err := client.Do(req)
+	res, err := networking.New().Do(req, nil, nil)
 	if err != nil {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
-- 
2.43.0


From 67ac2377036fe48f95318a1b0154bb041b577039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 28/34] fix: accept a session only for the client it was
 created for

---
 adapter/authserver/authserver.go | 2 ++
 adapter/strategy/web/web.go      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index c4ccfc4..cf3991b 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -41,6 +41,8 @@ type TokenResponse struct {
 	RefreshToken string `json:"refresh_token"`
 	// The token expiration time
 	ExpiresIn int `json:"expires_in"`
+	// The client the tokens were issued to
+	ClientID string `json:"-"`
 }
 
 // AuthorizationServerService represents an authorization server instance
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 4b76f7c..62a1417 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -154,6 +154,12 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		return nil, nil
 	}
 
+	// A session belongs to the client it was created for
+	if session.ClientID != "" && session.ClientID != action.Client.ID() {
+		zap.L().Debug("Session belongs to another client.", zap.String("client_name", action.Client.Name()))
+		return nil, nil
+	}
+
 	zap.L().Debug("Found active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value))
 
 	// Validate session
@@ -215,6 +221,7 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 			// The previous refresh token stays in force - https://tools.ietf.org/html/rfc6749#section-6
 			tokens.RefreshToken = session.RefreshToken
 		}
+		tokens.ClientID = c.ID()
 		if !w.updateSession(sessionID, tokens) {
 			zap.L().Debug("The session ended while its tokens were refreshed.", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
 			return nil, nil
@@ -338,6 +345,7 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 	}
 
 	cookie := generateSessionIDCookie(action.Client, nil)
+	response.ClientID = action.Client.ID()
 	w.tokenCache.Store(cookie.Value, response)
 
 	zap.L().Debug("OIDC callback: created new active session: ", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
-- 
2.43.0


From 4b2dcd6cb2f932490d634f4a71a384ae8c619f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 29/34] fix: draw states and session identifiers from the
 secure random source

---
 adapter/strategy/web/utils.go | 41 ++++++++++++-----------------------
 adapter/strategy/web/web.go   |  6 +++++
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index bfbe077..055d276 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -2,13 +2,11 @@ package webstrategy
 
 import (
 	"errors"
-	"math/rand"
 	"net/http"
 	"net/url"
-	"sync"
 	"time"
-	"unsafe"
 
+	"github.com/gorilla/securecookie"
 	"go.uber.org/zap"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
@@ -17,36 +15,25 @@ import (
 
 const (
 	letterBytes   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
-	letterIdxBits = 6                    // 6 bits to represent a letter index
-	letterIdxMask = 1<<letterIdxBits - 1 // All 1-bits, as many as letterIdxBits
-	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
+	letterIdxMask = 1<<6 - 1 // All 1-bits, as many as represent a letter index
 )
 
-var (
-	// srcMutex protects src, which is not safe for concurrent use
-	srcMutex sync.Mutex
-	src      = rand.NewSource(time.Now().UnixNano())
-)
-
-// randString generates a random string of the given size
+// randString generates a random string of the given size that cannot be predicted.
+// It is empty if the system's source of randomness fails.
 func randString(n int) string {
-	srcMutex.Lock()
-	defer srcMutex.Unlock()
-	b := make([]byte, n)
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := n-1, src.Int63(), letterIdxMax; i >= 0; {
-		if remain == 0 {
-			cache, remain = src.Int63(), letterIdxMax
+	b := make([]byte, 0, n)
+	for len(b) < n {
+		random := securecookie.GenerateRandomKey(n)
+		if random == nil {
+			return ""
 		}
-		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
-			b[i] = letterBytes[idx]
-			i--
+		for _, r := range random {
+			if idx := int(r & letterIdxMask); idx < len(letterBytes) && len(b) < n {
+				b = append(b, letterBytes[idx])
+			}
 		}
-		cache >>= letterIdxBits
-		remain--
 	}
-
-	return *(*string)(unsafe.Pointer(&b))
+	return string(b)
 }
 
 // generateAuthorizationURL builds the /authorization request that begins an OAuth 2.0 / OIDC flow
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 62a1417..ed1bc03 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -345,6 +345,9 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 	}
 
 	cookie := generateSessionIDCookie(action.Client, nil)
+	if cookie.Value == "" {
+		return nil, errors.New("could not generate a session identifier")
+	}
 	response.ClientID = action.Client.ID()
 	w.tokenCache.Store(cookie.Value, response)
 
@@ -559,6 +562,9 @@ func buildSuccessRedirectResponse(redirectURI string, cookies []*http.Cookie) *a
 
 func (w *WebStrategy) buildStateParam(c client.Client) (string, *http.Cookie, error) {
 	state := randString(10)
+	if state == "" {
+		return "", nil, errors.New("could not generate a state parameter")
+	}
 	cookieName := buildTokenCookieName(sessionCookie, c)
 	cookie, err := w.generateEncryptedCookie(cookieName, &OidcCookie{
 		Value:      state,
-- 
2.43.0


From f41c777944a5f394de12ef575180723bdff79720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 30/34] fix: the default audience rule does not exclude opaque
 access tokens

---
 adapter/pkg/apis/policies/v1/target.go | 2 ++
 adapter/policy/engine/engine.go        | 2 ++
 adapter/validator/validator.go         | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/adapter/pkg/apis/policies/v1/target.go b/adapter/pkg/apis/policies/v1/target.go
index 978bd68..692b3f3 100644
--- a/adapter/pkg/apis/policies/v1/target.go
+++ b/adapter/pkg/apis/policies/v1/target.go
@@ -24,4 +24,6 @@ type Rule struct {
 	Values  []string `json:"values"`
 	Match  string   `json:"match"`
 	Source string   `json:"source"`
+	// Implicit rules are not configured. They do not apply to opaque tokens, which carry no claims.
+	Implicit bool `json:"-"`
 }
\ No newline at end of file
diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 2c9c1a1..a42ed22 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -156,6 +156,8 @@ func createDefaultRules(action Action) []v1.Rule {
 				Claim:  aud,
 				Match:  "ANY",
 				Values: []string{action.Client.ID()},
+				// A client may be issued opaque access tokens
+				Implicit: true,
 			},
 		}
 	default:
diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index cc2f340..5b5f36d 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -173,6 +173,9 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	}
 
 	for _, rule := range rules {
+		if rule.Implicit {
+			continue
+		}
 		if rule.Source == Access.String() || rule.Source == "" {
 			zap.L().Warn("Unauthorized - rules configured for opaque access token")
 			return errors.BadRequestHTTPException("Unauthorized - rules configured for opaque access token")
-- 
2.43.0


From afed42189423c209b32eae3476c94f52e3cb8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 31/34] fix: do not log access tokens that are not confirmed

---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 5b5f36d..c34c398 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -163,12 +163,12 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
 	res, err := networking.New().Do(req, nil, nil)
 	if err != nil {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
+		zap.L().Warn("Unauthorized - invalid token", zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
 	if res.StatusCode != http.StatusOK {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
+		zap.L().Warn("Unauthorized - invalid token", zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
 	}
 
-- 
2.43.0


From 5cecae3c8c926021c5c50299b90641153c243fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 32/34] fix: do not log requests of an unexpected format

---
 adapter/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index c826d7f..09ef312 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -52,7 +52,7 @@ type (
 func (s *AppidAdapter) HandleAuthnZ(ctx context.Context, r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
 	///// Validate input /////
 	if err := validateAuthnzRequest(r); err != nil {
-		zap.S().Errorf("Unexpected template format for HandleAuthnZRequest: %v", r)
+		zap.L().Error("Unexpected template format for HandleAuthnZRequest", zap.Error(err))
 		return nil, err
 	}
 
-- 
2.43.0


From 6252248bf14ba8df926b4c0e4d9e0a87238a2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 33/34] fix: remove the callback suffix from the path only, not
 from the host

---
 adapter/strategy/web/web.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index ed1bc03..83b0588 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -356,10 +356,11 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 	// Return to the originally requested URL, unless the policy names another
 	redirectURL := action.RedirectUri
 	if redirectURL == "" {
-		redirectURL = redirectURI
-		for strings.HasSuffix(redirectURL, callbackEndpoint) {
-			redirectURL = strings.TrimSuffix(redirectURL, callbackEndpoint)
+		path := request.Path
+		for strings.HasSuffix(path, callbackEndpoint) {
+			path = strings.TrimSuffix(path, callbackEndpoint)
 		}
+		redirectURL = request.Scheme + "://" + request.Host + path
 	}
 
 	return buildSuccessRedirectResponse(redirectURL, []*http.Cookie{cookie}), nil
-- 
2.43.0


From abba675b9e3c37ef3abd6103158b061aa91ab9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 34/34] fix: an exact path of several slashes is the root and
 not every path

---
 adapter/policy/handler/crdeventhandler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/utils.go b/adapter/policy/handler/crdeventhandler/utils.go
index bba848d..187d213 100644
--- a/adapter/policy/handler/crdeventhandler/utils.go
+++ b/adapter/policy/handler/crdeventhandler/utils.go
@@ -35,8 +35,8 @@ func ParseTarget(target []v1.TargetElement, namespace string) []policy.PolicyMap
 				for _, path := range items.Paths {
 					method := policy.NewMethod(path.Method)
 					if path.Exact != "" {
-						if path.Exact != "/" {
-							path.Exact = strings.TrimRight(path.Exact, "/")
+						if path.Exact = strings.TrimRight(path.Exact, "/"); path.Exact == "" {
+							path.Exact = "/"
 						}
 						targets = append(targets, getParsedPolicy(service, method, path.Exact, path.Policies))
 					}
-- 
2.43.0

