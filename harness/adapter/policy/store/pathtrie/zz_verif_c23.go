package pathtrie

import (
	"strconv"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zzSeg = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~%"

// zzPath makes "/" (no segments) or a path of up to max segments, the last of
// which may be the wildcard.
func zzPath(label string, max int, wild bool) (segs []string, path string, pattern bool) {
	n := zz.Choose(label+".n", max+1)
	for i := 0; i < n; i++ {
		s := zz.StringIn(label+"."+strconv.Itoa(i), zzSeg, 1, 10)
		segs = append(segs, s)
		path += "/" + s
	}
	if wild && n < max+1 && zz.Choose(label+".w", 2) == 1 {
		pattern = true
		path += "/*"
	} else if n == 0 {
		path = "/"
	}
	return
}

type zzOp struct {
	segs    []string
	path    string
	pattern bool
	val     int // 0: deleted
}

// stored is what a map keyed by path holds after the operations.
func zzStored(ops []zzOp, path string) int {
	v := 0
	for _, o := range ops {
		v = zz.IteInt(o.path == path, o.val, v)
	}
	return v
}

func zzVal(v interface{}) int {
	if v == nil {
		return 0
	}
	return v.(int)
}

// zzNearest is the value of the path or else of the longest pattern covering it.
func zzNearest(ops []zzOp, segs []string, path string) int {
	best := zzStored(ops, "/*")
	pre := ""
	for _, s := range segs {
		pre += "/" + s
		v := zzStored(ops, pre+"/*")
		best = zz.IteInt(v != 0, v, best)
	}
	v := zzStored(ops, path)
	return zz.IteInt(v != 0, v, best)
}

func zzTrieOps(n, max int) (*PathTrie, []zzOp) {
	t := NewPathTrie()
	var ops []zzOp
	for i := 0; i < n; i++ {
		l := "op" + strconv.Itoa(i)
		segs, path, pat := zzPath(l, max, true)
		o := zzOp{segs: segs, path: path, pattern: pat}
		if i > 0 && zz.Choose(l+".del", 2) == 1 {
			t.Delete(path)
		} else {
			o.val = i + 1
			t.Put(path, i+1)
		}
		ops = append(ops, o)
	}
	return t, ops
}

// Verif_C23_lookup: after two operations every lookup agrees with a map.
//
//verif:bound=2_operations,paths_of_up_to_2_segments(3_thorough)_plus_wildcard,segments_of_1-10_characters
func Verif_C23_lookup() {
	max := 2
	if zz.Thorough() {
		max = 3
	}
	t, ops := zzTrieOps(2, max)
	segs, q, _ := zzPath("q", max, false)
	got := zzVal(t.Get(q))
	zz.Assert(got == zzStored(ops, q), "exact lookup returns what was stored last for the path")
	near := zzVal(t.GetActions(q))
	want := zzNearest(ops, segs, q)
	zz.Assert(near == want, "pattern lookup returns the path's own value or that of the longest covering pattern")
	zz.Observe("get", got)
	zz.Observe("near", near)
	if near != 0 {
		if got != 0 {
			zz.Reach("exact value found")
		} else {
			zz.Reach("pattern value found")
		}
	}
}

// Verif_C23_pattern_keys: pattern keys themselves are looked up exactly.
//
//verif:bound=2_operations,pattern_paths_of_up_to_2_segments
func Verif_C23_pattern_keys() {
	t, ops := zzTrieOps(2, 2)
	segs, q, pat := zzPath("q", 2, true)
	zz.Assume(pat)
	_ = segs
	got := zzVal(t.Get(q))
	zz.Assert(got == zzStored(ops, q), "exact lookup of a pattern returns what was stored last for it")
	zz.Observe("get", got)
	if got != 0 {
		zz.Reach("pattern key found")
	}
}

// Verif_C23_history: three operations, deletions included, single segments and
// patterns below them.
//
//verif:bound=3_operations,paths_of_up_to_1_segment_(2_thorough)_plus_wildcard,lookups_of_up_to_2_segments
func Verif_C23_history() {
	max := 1
	if zz.Thorough() {
		max = 2
	}
	t, ops := zzTrieOps(3, max)
	segs, q, _ := zzPath("q", 2, false)
	zz.Assert(zzVal(t.Get(q)) == zzStored(ops, q), "exact lookup returns what was stored last for the path")
	near := zzVal(t.GetActions(q))
	zz.Assert(near == zzNearest(ops, segs, q), "pattern lookup returns the path's own value or that of the longest covering pattern")
	zz.Observe("near", near)
	if near != 0 {
		zz.Reach("value found after three operations")
	}
}
