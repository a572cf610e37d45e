package config

import (
	"strconv"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzSet applies one text to an option and judges it.
func zzSet(o *IntOptions, sizes []int, text string) {
	before := o.Value
	err := o.Set(text)
	listed, value := false, 0
	for _, s := range sizes {
		is := text == strconv.Itoa(s)
		listed = zz.Or(listed, is)
		value = zz.IteInt(is, s, value)
	}
	zz.Observe("refused", err != nil)
	supported := false
	for _, s := range sizes {
		supported = zz.Or(supported, o.Value == s)
	}
	zz.Assert(supported, "an unsupported size is selected")
	if err != nil {
		zz.Reach("refused")
		zz.Assert(!listed, "a supported size is refused")
		zz.Assert(o.Value == before, "a refused text changed the size")
		return
	}
	zz.Reach("set")
	zz.Assert(zz.Implies(listed, o.Value == value), "another size than the one given is selected")
	// other spellings of a number: an optional sign and leading zeros
	n, ok := 0, text != ""
	start := 0
	if text[:1] == "+" {
		start = 1
	}
	for i := start; i < len(text); i++ {
		d := int(text[i]) - '0'
		ok = zz.And(ok, d >= 0, d <= 9)
		n = n*10 + d
	}
	zz.Assert(zz.And(ok, len(text) > start, n == o.Value), "a text that is not the selected number is accepted")
}

// Any text given for the hash key size and for the block key size.
//
//verif:bound=any_2_texts_of_at_most_4_(6)_printable_characters_one_after_the_other budget=60 tbudget=300
func Verif_C25_set() {
	max := 4
	if zz.Thorough() {
		max = 6
	}
	c := NewConfig()
	if zz.Choose("option", 2) == 0 {
		zz.Assert(c.HashKeySize.Value == 32 || c.HashKeySize.Value == 64, "the default hash key size is not supported")
		zzSet(&c.HashKeySize, []int{32, 64}, zz.String("first", max))
		zzSet(&c.HashKeySize, []int{32, 64}, zz.String("second", max))
		zz.Assert(c.BlockKeySize.Value == NewConfig().BlockKeySize.Value, "setting one size changed the other")
	} else {
		zz.Assert(c.BlockKeySize.Value == 16 || c.BlockKeySize.Value == 24 || c.BlockKeySize.Value == 32, "the default block key size is not supported")
		zzSet(&c.BlockKeySize, []int{16, 24, 32}, zz.String("first", max))
		zzSet(&c.BlockKeySize, []int{16, 24, 32}, zz.String("second", max))
		zz.Assert(c.HashKeySize.Value == NewConfig().HashKeySize.Value, "setting one size changed the other")
	}
}
