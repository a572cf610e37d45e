package pathtrie

import (
	"strconv"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// Verif_C23_deep: values along one deep path, some of them deleted.
//
//verif:bound=exact_and_pattern_values_at_any_depth_of_a_path_of_5_(6)_segments,_then_a_deletion_(2),_lookups_at_any_depth,_leaving_the_path_or_not budget=100 tbudget=300
func Verif_C23_deep() {
	deep := 5
	if zz.Thorough() {
		deep = 6
	}
	var segs []string
	paths := []string{""}
	for i := 0; i < deep; i++ {
		s := zz.StringIn("seg"+strconv.Itoa(i), zzSeg, 1, 4)
		segs = append(segs, s)
		paths = append(paths, paths[i]+"/"+s)
	}
	at := func(i int, pattern bool) string {
		if pattern {
			return paths[i] + "/*"
		}
		if i == 0 {
			return "/"
		}
		return paths[i]
	}
	t := NewPathTrie()
	var ops []zzOp
	mask, dels := 1, 1
	if zz.Thorough() {
		mask, dels = zz.Choose("exact at", 3), 2
	}
	for i := 0; i <= deep; i++ {
		k := zz.Choose("op"+strconv.Itoa(i), 2)
		for j := 0; j < 2; j++ {
			if j == 0 && k == 0 || j == 1 && i%3 != mask {
				continue
			}
			o := zzOp{path: at(i, j == 0), val: 1 + 2*i + j}
			t.Put(o.path, o.val)
			ops = append(ops, o)
		}
	}
	for d := 0; d < dels; d++ {
		l := "del" + strconv.Itoa(d)
		if i := zz.Choose(l, len(ops)+1); i < len(ops) {
			t.Delete(ops[i].path)
			ops = append(ops, zzOp{path: ops[i].path})
		}
	}
	n := zz.Choose("q.n", deep+1)
	var q []string
	path := ""
	for i := 0; i < n; i++ {
		s := segs[i]
		if i == n-1 && zz.Choose("q.leaves", 2) == 1 {
			s = zz.StringIn("q.seg", zzSeg, 1, 4)
		}
		q = append(q, s)
		path += "/" + s
	}
	if n == 0 {
		path = "/"
	}
	got, near := zzVal(t.Get(path)), zzVal(t.GetActions(path))
	zz.Assert(got == zzStored(ops, path), "exact lookup returns what was stored last for the path")
	zz.Assert(near == zzNearest(ops, q, path), "pattern lookup returns the path's own value or that of the longest covering pattern")
	zz.Observe("near", near)
	if near != 0 {
		zz.Reach("value found deep in the trie")
	}
}

// Verif_C23_long: values far down a path of many segments.
//
//verif:bound=a_pattern_at_any_depth_of_a_path_of_20_(40)_segments_of_given_names_and_a_value_or_pattern_at_its_end_that_may_be_deleted,_lookups_of_the_path_or_below_it_that_may_leave_it_anywhere_with_a_segment_of_up_to_40_characters budget=60 tbudget=200
func Verif_C23_long() {
	deep := 20
	if zz.Thorough() {
		deep = 40
	}
	paths := []string{""}
	var segs []string
	for i := 0; i < deep; i++ {
		segs = append(segs, "segment-number-"+strconv.Itoa(i))
		paths = append(paths, paths[i]+"/"+segs[i])
	}
	t := NewPathTrie()
	var ops []zzOp
	put := func(path string, val int) {
		t.Put(path, val)
		ops = append(ops, zzOp{path: path, val: val})
	}
	put(paths[zz.Choose("at", deep+1)]+"/*", 1)
	end := paths[deep]
	if zz.Choose("end", 2) == 1 {
		end += "/*"
	}
	put(end, 2)
	if zz.Choose("deleted", 2) == 1 {
		t.Delete(end)
		ops = append(ops, zzOp{path: end})
	}
	n := deep + zz.Choose("below", 2)
	off := zz.Choose("leaves at", deep+1)
	var q []string
	path := ""
	for i := 0; i < n; i++ {
		s := ""
		if i < deep && i != off {
			s = segs[i]
		} else {
			s = zz.StringIn("q.seg", zzSeg, 1, 40)
		}
		q = append(q, s)
		path += "/" + s
	}
	got, near := zzVal(t.Get(path)), zzVal(t.GetActions(path))
	zz.Assert(got == zzStored(ops, path), "exact lookup returns what was stored last for the path")
	zz.Assert(near == zzNearest(ops, q, path), "pattern lookup returns the path's own value or that of the longest covering pattern")
	if near == 1 {
		zz.Reach("value above")
	}
}
