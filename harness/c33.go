package vxlisp

import (
	vx_core "vxlisp/vxlisp/vx/core"
)

func init() {
	vxHarness["vhC33List"] = vhC33List
	vxHarness["vhC33Map"] = vhC33Map
	vxHarness["vhC33Display"] = vhC33Display
}

// vxSomeTexts are texts of any bytes.
func vxSomeTexts(tag string, max int, size int) []string {
	out := []string{}
	n := vxChoice(tag+"s", max+1)
	for i := 0; i < n; i++ {
		var b []byte
		for j, k := 0, vxChoice(tag+" length", size+1); j < k; j++ {
			b = append(b, vxByte(tag))
		}
		out = append(out, string(b))
	}
	return out
}

// Lists keep their values in order; positions start at 1 and others are empty.
func vhC33List() {
	texts := vxSomeTexts("item", vxParam("items"), 1)
	index := vxInt("index", -2, vxParam("items")+2)
	n := len(texts)
	inside := index >= 1 && index <= n

	list := vx_core.V_stringlist_from_liststringn(texts)
	got := vx_core.V_liststringn_from_liststring(list.P_liststring)
	vxAssert(len(got) == n, "a list of strings has as many strings")
	for i := range got {
		vxAssert(got[i] == texts[i], "a list of strings keeps them in order")
	}
	one := vx_core.V_stringlist_string_from_stringlist_indexn(list, index)
	if inside {
		vxAssert(one.P_stringn == texts[index-1], "a position gives its string")
	} else {
		vxAssert(one == vx_core.E_string, "no string is outside")
	}
	all := vx_core.V_listany_from_any(vx_core.A_stringlist_from_liststringn(texts))
	vxAssert(len(all) == n, "a list of strings has as many values")
	var types []*vx_core.Type_type
	var vars []*vx_core.Type_var
	for i := range all {
		vxAssert(vx_core.V_string_cast(all[i]).P_stringn == texts[i], "the values of a list are in order")
		types = append(types, vx_core.V_type_create())
		vars = append(vars, vx_core.V_var_from_namen_type(texts[i], vx_core.T_string))
		vxAssert(vx_core.V_stringn_from_string(vars[i].P_name) == texts[i] && vars[i].P_type == vx_core.T_string, "a variable keeps its name and type")
	}

	anys := vx_core.V_anylist_from_listany(all)
	v := vx_core.V_anylist_any_from_anylist_indexn(anys, index)
	typ := vx_core.V_typelist_type_from_typelist_indexn(vx_core.V_typelist_from_listtype(types), index)
	vr := vx_core.V_varlist_var_from_varlist_indexn(vx_core.V_varlist_from_listvar(vars), index)
	if inside {
		vxAssert(v == all[index-1], "a position gives its value")
		vxAssert(typ == types[index-1], "a position gives its type")
		vxAssert(vr == vars[index-1], "a position gives its variable")
		vxCover("inside")
	} else {
		vxAssert(v == vx_core.E_any, "no value is outside")
		vxAssert(typ == vx_core.E_type, "no type is outside")
		vxAssert(vr == vx_core.E_var, "no variable is outside")
		vxCover("outside")
	}
	back := vx_core.V_listany_from_any(vx_core.A_anylist_from_listany(all))
	vxAssert(len(back) == n, "a list has as many values")
	strs := vx_core.V_stringlist_from_anylist(anys)
	vxAssert(len(strs.P_liststring) == n, "every string of a list is found")
	for i := range back {
		vxAssert(back[i] == all[i], "a list keeps its values in order")
		vxAssert(strs.P_liststring[i].P_stringn == texts[i], "the strings of a list are in order")
	}
}

// Maps keep the last value of every key and the order of the keys.
func vhC33Map() {
	items := vxSomeTexts("item", vxParam("items"), 2)
	for _, s := range items {
		vxAssume(s != "" && s != ":")
	}
	var keys, values []string
	for i := 0; i+1 < len(items); i += 2 {
		key := items[i]
		if key[0] == ':' {
			key = key[1:]
		}
		at := -1
		for j := range keys {
			if keys[j] == key {
				at = j
			}
		}
		if at < 0 {
			keys, values = append(keys, key), append(values, items[i+1])
		} else {
			values[at] = items[i+1]
			vxCover("again")
		}
	}
	m := vx_core.V_stringmap_from_liststringn(items)
	v := vx_core.V_stringmap_cast_any(m)
	got := vx_core.V_listkey_from_any(v)
	vxAssert(len(got) == len(keys), "every key is kept once")
	for i := range got {
		vxAssert(got[i] == keys[i], "keys are in the order they were written")
		vxAssert(vx_core.V_stringmap_string_from_stringmap_keyn(m, keys[i]).P_stringn == values[i], "a key gives its last value")
		vxAssert(vx_core.V_string_cast(vx_core.V_any_from_any_keyn(v, keys[i])).P_stringn == values[i], "a key gives its last value")
	}
	all := vx_core.V_mapany_from_any(v)
	vxAssert(len(all) == len(keys), "the values of all keys are given")
	for i := range keys {
		x, ok := all[keys[i]]
		vxAssert(ok && vx_core.V_string_cast(x).P_stringn == values[i], "the values are those of their keys")
	}
	other := vxAnyKey(keys)
	vxAssert(vx_core.V_stringmap_string_from_stringmap_keyn(m, other) == vx_core.E_string, "another key has no value")
	vxAssert(vx_core.V_any_from_any_keyn(v, other) == vx_core.E_any, "another key has no value")
	vxCover("map")
}

// vxAnyKey is any text that is not among some.
func vxAnyKey(keys []string) string {
	var b []byte
	for j, k := 0, vxChoice("other length", 3); j < k; j++ {
		b = append(b, vxByte("other"))
	}
	for _, key := range keys {
		vxAssume(key != string(b))
	}
	return string(b)
}

// Values are displayed as they would be written.
func vhC33Display() {
	texts := vxSomeTexts("item", vxParam("items"), 1)
	want := "(stringlist"
	for _, s := range texts {
		want += "\n \"" + s + "\""
	}
	want += ")"
	vxAssert(vx_core.V_stringn_display_from_any(vx_core.A_stringlist_from_liststringn(texts)) == want, "a list is displayed with its values in order")
	for _, s := range texts {
		vxAssert(vx_core.V_stringn_display_from_any(vx_core.A_string_from_stringn(s)) == "\""+s+"\"", "a string is displayed in quotes")
		vxAssume(s != "" && s != ":")
	}
	want = "(stringmap"
	for i := 0; i+1 < len(texts); i += 2 {
		for j := 0; j < i; j += 2 {
			vxAssume(texts[j] != texts[i])
		}
		if texts[i] == " " {
			want += "\n \" \""
		} else {
			want += "\n :" + texts[i]
		}
		if texts[i+1] == "\n" {
			// a value of several lines has its own line
			want += "\n  "
		} else {
			want += " "
		}
		want += "\"" + texts[i+1] + "\""
	}
	want += ")"
	vxAssert(vx_core.V_stringn_display_from_any(vx_core.A_stringmap_from_liststringn(texts)) == want, "a map is displayed with its keys and values in order")
	vxCover("display")
}
