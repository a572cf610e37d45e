package v1

import (
	"strconv"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzShape says how long the lists of an object are (-1: absent) and what texts
// it holds. The same shape always makes the same object.
type zzShape struct {
	lens  map[string]int
	texts map[string]string
	max   int
}

func (s *zzShape) len(label string) int {
	n, ok := s.lens[label]
	if !ok {
		n = zz.Choose(label, s.max+2) - 1
		s.lens[label] = n
	}
	return n
}

func (s *zzShape) text(label string) string {
	t, ok := s.texts[label]
	if !ok {
		t = zz.String(label, 12)
		s.texts[label] = t
	}
	return t
}

func (s *zzShape) strings(label string) []string {
	n := s.len(label)
	if n < 0 {
		return nil
	}
	l := make([]string, n)
	for i := range l {
		l[i] = s.text(label + strconv.Itoa(i))
	}
	return l
}

func (s *zzShape) meta() metav1.ObjectMeta {
	m := metav1.ObjectMeta{Namespace: s.text("ns"), Name: s.text("name"), ResourceVersion: s.text("rv"), Generation: 7}
	m.Labels = map[string]string{"app": s.text("label")}
	m.Annotations = map[string]string{"note": s.text("annotation")}
	m.Finalizers = []string{s.text("finalizer")}
	m.OwnerReferences = []metav1.OwnerReference{{Name: s.text("owner")}}
	return m
}

func zzMutateMeta(m *metav1.ObjectMeta) {
	m.Namespace += "!"
	m.Name += "!"
	m.ResourceVersion += "!"
	m.Generation++
	m.Labels["app"] += "!"
	m.Annotations["note"] += "!"
	m.Finalizers[0] += "!"
	m.OwnerReferences[0].Name += "!"
}

func (s *zzShape) policy() *Policy {
	p := &Policy{TypeMeta: metav1.TypeMeta{Kind: s.text("kind"), APIVersion: "v1"}, ObjectMeta: s.meta()}
	if n := s.len("targets"); n >= 0 {
		p.Spec.Target = make([]TargetElement, n)
	}
	for i := range p.Spec.Target {
		t := &p.Spec.Target[i]
		l := "t" + strconv.Itoa(i)
		t.ServiceName = s.text(l + ".service")
		if n := s.len(l + ".paths"); n >= 0 {
			t.Paths = make([]PathConfig, n)
		}
		for j := range t.Paths {
			c := &t.Paths[j]
			l := l + ".p" + strconv.Itoa(j)
			c.Exact, c.Prefix, c.Method = s.text(l+".exact"), s.text(l+".prefix"), s.text(l+".method")
			if n := s.len(l + ".policies"); n >= 0 {
				c.Policies = make([]PathPolicy, n)
			}
			for k := range c.Policies {
				q := &c.Policies[k]
				l := l + ".q" + strconv.Itoa(k)
				q.PolicyType, q.Config, q.RedirectUri = s.text(l+".type"), s.text(l+".config"), s.text(l+".redirect")
				if n := s.len(l + ".rules"); n >= 0 {
					q.Rules = make([]Rule, n)
				}
				for r := range q.Rules {
					l := l + ".r" + strconv.Itoa(r)
					q.Rules[r] = Rule{Claim: s.text(l + ".claim"), Match: s.text(l + ".match"), Source: s.text(l + ".source"), Values: s.strings(l + ".values")}
				}
			}
		}
	}
	return p
}

func zzMutatePolicy(p *Policy) {
	p.Kind += "!"
	zzMutateMeta(&p.ObjectMeta)
	for i := range p.Spec.Target {
		t := &p.Spec.Target[i]
		t.ServiceName += "!"
		for j := range t.Paths {
			c := &t.Paths[j]
			c.Exact += "!"
			c.Prefix += "!"
			c.Method += "!"
			for k := range c.Policies {
				q := &c.Policies[k]
				q.PolicyType += "!"
				q.Config += "!"
				q.RedirectUri += "!"
				for r := range q.Rules {
					q.Rules[r].Claim += "!"
					q.Rules[r].Match += "!"
					q.Rules[r].Source += "!"
					for v := range q.Rules[r].Values {
						q.Rules[r].Values[v] += "!"
					}
				}
			}
		}
	}
}

func (s *zzShape) oidc() *OidcConfig {
	return &OidcConfig{TypeMeta: metav1.TypeMeta{Kind: s.text("kind"), APIVersion: "v1"}, ObjectMeta: s.meta(), Spec: OidcConfigSpec{
		ClientName: s.text("clientname"), AuthMethod: s.text("method"), ClientID: s.text("id"), DiscoveryURL: s.text("url"), ClientSecret: s.text("secret"),
		ClientSecretRef: ClientSecretRef{Name: s.text("refname"), Key: s.text("refkey")},
		Scopes:          s.strings("scopes"),
	}}
}

func zzMutateOidc(o *OidcConfig) {
	o.Kind += "!"
	zzMutateMeta(&o.ObjectMeta)
	for _, p := range []*string{&o.Spec.ClientName, &o.Spec.AuthMethod, &o.Spec.ClientID, &o.Spec.DiscoveryURL, &o.Spec.ClientSecret, &o.Spec.ClientSecretRef.Name, &o.Spec.ClientSecretRef.Key} {
		*p += "!"
	}
	for i := range o.Spec.Scopes {
		o.Spec.Scopes[i] += "!"
	}
}

func (s *zzShape) jwt() *JwtConfig {
	return &JwtConfig{TypeMeta: metav1.TypeMeta{Kind: s.text("kind"), APIVersion: "v1"}, ObjectMeta: s.meta(), Spec: JwtConfigSpec{ClientName: s.text("clientname"), JwksURL: s.text("url")}}
}

func zzMutateJwt(o *JwtConfig) {
	o.Kind += "!"
	zzMutateMeta(&o.ObjectMeta)
	o.Spec.ClientName += "!"
	o.Spec.JwksURL += "!"
}

func zzNewShape(max int) *zzShape {
	return &zzShape{lens: map[string]int{}, texts: map[string]string{}, max: max}
}

func zzLen() int {
	if zz.Thorough() {
		return 2
	}
	return 1
}

// A copied Policy is equal and independent.
//
//verif:bound=lists_absent,_empty_or_of_1_(2)_elements_at_each_of_five_levels,_any_texts_of_at_most_12_characters budget=60 tbudget=300
func Verif_C24_policy() {
	s := zzNewShape(zzLen())
	if zz.Thorough() {
		// only one level has two elements: the tree would be too wide
		s.max = 1
		l := []string{"targets", "t0.paths", "t0.p0.policies", "t0.p0.q0.rules", "t0.p0.q0.r0.values"}[zz.Choose("wide", 5)]
		s.lens[l] = 2
		for _, o := range []string{"targets", "t0.paths", "t0.p0.policies", "t0.p0.q0.rules"} {
			if o == l {
				break
			}
			s.lens[o] = 1
		}
	}
	a := s.policy()
	b := a.DeepCopy()
	zz.Assert(b != nil && b != a, "not a copy")
	zz.Assert(zz.DeepEqual(b, s.policy()), "the copy differs")
	zz.Assert(zz.DeepEqual(a, s.policy()), "copying changed the original")
	zzMutatePolicy(b)
	zz.Assert(zz.DeepEqual(a, s.policy()), "changing the copy changes the original")
	c := a.DeepCopyObject().(*Policy)
	zz.Assert(zz.DeepEqual(c, s.policy()), "the copy as an object differs")
	zzMutatePolicy(a)
	zz.Assert(zz.DeepEqual(c, s.policy()), "changing the original changes the copy")
	zz.Reach("policy")
}

// The parts of a policy are copied on their own too.
//
//verif:bound=lists_absent,_empty_or_of_1_element,_any_texts_of_at_most_12_characters budget=60 tbudget=300
func Verif_C24_parts() {
	s := zzNewShape(1)
	a := s.policy()
	spec := a.Spec.DeepCopy()
	zz.Assert(zz.DeepEqual(spec, &s.policy().Spec), "the copied spec differs")
	for i := range a.Spec.Target {
		t := a.Spec.Target[i].DeepCopy()
		zz.Assert(zz.DeepEqual(t, &s.policy().Spec.Target[i]), "the copied target differs")
		for j := range a.Spec.Target[i].Paths {
			p := a.Spec.Target[i].Paths[j].DeepCopy()
			zz.Assert(zz.DeepEqual(p, &s.policy().Spec.Target[i].Paths[j]), "the copied path differs")
			for k := range a.Spec.Target[i].Paths[j].Policies {
				q := a.Spec.Target[i].Paths[j].Policies[k].DeepCopy()
				zz.Assert(zz.DeepEqual(q, &s.policy().Spec.Target[i].Paths[j].Policies[k]), "the copied path policy differs")
				for r := range q.Rules {
					q.Rules[r].Claim += "!"
					for v := range q.Rules[r].Values {
						q.Rules[r].Values[v] += "!"
					}
					zz.Reach("rule")
				}
				zz.Assert(zz.DeepEqual(a, s.policy()), "changing a copied path policy changes the original")
			}
			for k := range p.Policies {
				p.Policies[k].Config += "!"
			}
			zz.Assert(zz.DeepEqual(a, s.policy()), "changing a copied path changes the original")
		}
		for j := range t.Paths {
			t.Paths[j].Exact += "!"
		}
		zz.Assert(zz.DeepEqual(a, s.policy()), "changing a copied target changes the original")
	}
	for i := range spec.Target {
		spec.Target[i].ServiceName += "!"
	}
	zz.Assert(zz.DeepEqual(a, s.policy()), "changing a copied spec changes the original")
}

// A copied OidcConfig or JwtConfig is equal and independent.
//
//verif:bound=scopes_absent,_empty_or_of_at_most_3_elements,_any_texts_of_at_most_12_characters budget=60 tbudget=100
func Verif_C24_configs() {
	s := zzNewShape(3)
	a := s.oidc()
	b := a.DeepCopy()
	zz.Assert(b != nil && b != a, "not a copy")
	zz.Assert(zz.DeepEqual(b, s.oidc()), "the copy of an OidcConfig differs")
	zzMutateOidc(b)
	zz.Assert(zz.DeepEqual(a, s.oidc()), "changing the copy of an OidcConfig changes the original")
	c := a.DeepCopyObject().(*OidcConfig)
	sp := a.Spec.DeepCopy()
	rf := a.Spec.ClientSecretRef.DeepCopy()
	zzMutateOidc(a)
	zz.Assert(zz.DeepEqual(c, s.oidc()), "changing an OidcConfig changes its copy")
	zz.Assert(zz.DeepEqual(sp, &s.oidc().Spec), "changing an OidcConfig changes the copy of its spec")
	zz.Assert(zz.DeepEqual(rf, &s.oidc().Spec.ClientSecretRef), "the copy of a secret reference differs")

	j := s.jwt()
	k := j.DeepCopy()
	zz.Assert(k != nil && k != j, "not a copy")
	zz.Assert(zz.DeepEqual(k, s.jwt()), "the copy of a JwtConfig differs")
	zzMutateJwt(k)
	zz.Assert(zz.DeepEqual(j, s.jwt()), "changing the copy of a JwtConfig changes the original")
	o := j.DeepCopyObject().(*JwtConfig)
	js := j.Spec.DeepCopy()
	zzMutateJwt(j)
	zz.Assert(zz.DeepEqual(o, s.jwt()), "changing a JwtConfig changes its copy")
	zz.Assert(zz.DeepEqual(js, &s.jwt().Spec), "changing a JwtConfig changes the copy of its spec")
	zz.Reach("configs")
}

// Copied lists, and copies of nothing.
//
//verif:bound=lists_absent,_empty_or_of_1..2_objects,_their_lists_absent,_empty_or_of_1_element budget=60 tbudget=300
func Verif_C24_lists() {
	n := zz.Choose("items", 4) - 1
	shapes := []*zzShape{zzNewShape(1), zzNewShape(0)}
	for i, s := range shapes {
		s.texts["ns"] = "ns" + strconv.Itoa(i)
	}
	shapes[1].texts["name"] = "second"
	for _, l := range []string{"kind", "rv", "label", "annotation", "finalizer", "owner", "clientname", "url", "method", "id", "secret", "refname", "refkey"} {
		shapes[1].texts[l] = l
	}
	meta := metav1.ListMeta{ResourceVersion: zz.String("listversion", 3)}
	switch zz.Choose("kind of list", 3) {
	case 0:
		// a deeper object is copied elsewhere
		shapes[0].lens["t0.p0.policies"] = -1
		mk := func() *PolicyList {
			l := &PolicyList{ListMeta: meta}
			if n >= 0 {
				l.Items = make([]Policy, n)
			}
			for i := range l.Items {
				l.Items[i] = *shapes[i].policy()
			}
			return l
		}
		a := mk()
		b := a.DeepCopy()
		zz.Assert(zz.DeepEqual(b, mk()), "the copy of a list differs")
		c := a.DeepCopyObject().(*PolicyList)
		for i := range b.Items {
			zzMutatePolicy(&b.Items[i])
		}
		b.ResourceVersion += "!"
		zz.Assert(zz.DeepEqual(a, mk()), "changing the copy of a list changes the original")
		for i := range a.Items {
			zzMutatePolicy(&a.Items[i])
		}
		zz.Assert(zz.DeepEqual(c, mk()), "changing a list changes its copy")
	case 1:
		mk := func() *OidcConfigList {
			l := &OidcConfigList{ListMeta: meta}
			if n >= 0 {
				l.Items = make([]OidcConfig, n)
			}
			for i := range l.Items {
				l.Items[i] = *shapes[i].oidc()
			}
			return l
		}
		a := mk()
		b := a.DeepCopy()
		zz.Assert(zz.DeepEqual(b, mk()), "the copy of a list differs")
		c := a.DeepCopyObject().(*OidcConfigList)
		for i := range b.Items {
			zzMutateOidc(&b.Items[i])
		}
		b.ResourceVersion += "!"
		zz.Assert(zz.DeepEqual(a, mk()), "changing the copy of a list changes the original")
		for i := range a.Items {
			zzMutateOidc(&a.Items[i])
		}
		zz.Assert(zz.DeepEqual(c, mk()), "changing a list changes its copy")
	case 2:
		mk := func() *JwtConfigList {
			l := &JwtConfigList{ListMeta: meta}
			if n >= 0 {
				l.Items = make([]JwtConfig, n)
			}
			for i := range l.Items {
				l.Items[i] = *shapes[i].jwt()
			}
			return l
		}
		a := mk()
		b := a.DeepCopy()
		zz.Assert(zz.DeepEqual(b, mk()), "the copy of a list differs")
		c := a.DeepCopyObject().(*JwtConfigList)
		for i := range b.Items {
			zzMutateJwt(&b.Items[i])
		}
		b.ResourceVersion += "!"
		zz.Assert(zz.DeepEqual(a, mk()), "changing the copy of a list changes the original")
		for i := range a.Items {
			zzMutateJwt(&a.Items[i])
		}
		zz.Assert(zz.DeepEqual(c, mk()), "changing a list changes its copy")
	}
	zz.Reach("list")
	var p *Policy
	var o *OidcConfig
	var j *JwtConfig
	var pl *PolicyList
	var ol *OidcConfigList
	var jl *JwtConfigList
	zz.Assert(p.DeepCopy() == nil && o.DeepCopy() == nil && j.DeepCopy() == nil, "nothing is copied to something")
	zz.Assert(pl.DeepCopy() == nil && ol.DeepCopy() == nil && jl.DeepCopy() == nil, "no list is copied to a list")
	zz.Assert(p.DeepCopyObject() == nil && o.DeepCopyObject() == nil && j.DeepCopyObject() == nil, "nothing is copied to an object")
	zz.Assert(pl.DeepCopyObject() == nil && ol.DeepCopyObject() == nil && jl.DeepCopyObject() == nil, "no list is copied to an object")
}
