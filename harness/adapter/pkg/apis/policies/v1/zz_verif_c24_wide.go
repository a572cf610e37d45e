package v1

import zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"

// A long list is copied whole and independently at every level.
//
//verif:bound=5_elements_at_one_of_the_five_levels,_1_at_those_above,_absent,_empty_or_1_below budget=100 tbudget=300
func Verif_C24_long() {
	s := zzNewShape(1)
	levels := []string{"targets", "t0.paths", "t0.p0.policies", "t0.p0.q0.rules", "t0.p0.q0.r0.values"}
	w := zz.Choose("long", 5)
	for i := 0; i < w; i++ {
		s.lens[levels[i]] = 1
	}
	s.lens[levels[w]] = 5
	// only the last of many is filled
	for i := 0; i < 4; i++ {
		n := string(rune('0' + i))
		s.lens["t"+n+".paths"] = map[bool]int{true: -1, false: 1}[w == 0]
		s.lens["t0.p"+n+".policies"] = map[bool]int{true: -1, false: 1}[w == 1]
		s.lens["t0.p0.q"+n+".rules"] = map[bool]int{true: -1, false: 1}[w == 2]
		s.lens["t0.p0.q0.r"+n+".values"] = map[bool]int{true: 0, false: 1}[w == 3]
	}
	if w < 5 {
		s.lens[levels[w]] = 5
	}
	a := s.policy()
	b := a.DeepCopy()
	zz.Assert(zz.DeepEqual(b, s.policy()), "the copy of a long list differs")
	zzMutatePolicy(b)
	zz.Assert(zz.DeepEqual(a, s.policy()), "changing the copy of a long list changes the original")
	zz.Reach("long list")
}
