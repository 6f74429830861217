package vxlisp

import (
	vx_core "vxlisp/vxlisp/vx/core"
)

func init() {
	vxHarness["vhC28Misc"] = vhC28Misc
	vxHarness["vhC28Find"] = vhC28Find
	vxHarness["vhC28Cut"] = vhC28Cut
	vxHarness["vhC28Split"] = vhC28Split
	vxHarness["vhC28Case"] = vhC28Case
	vxHarness["vhC28List"] = vhC28List
	vxHarness["vhC28Lines"] = vhC28Lines
	vxHarness["vhC28Compare"] = vhC28Compare
}

// vxAt tells whether a text has another at a position.
func vxAt(s string, i int, find string) bool {
	if i+len(find) > len(s) {
		return false
	}
	for j := 0; j < len(find); j++ {
		if s[i+j] != find[j] {
			return false
		}
	}
	return true
}

// vxFindAll are the positions of a text in another, overlapping ones included.
func vxFindAll(s string, find string) []int {
	var out []int
	for i := 0; i+len(find) <= len(s); i++ {
		if vxAt(s, i, find) {
			out = append(out, i)
		}
	}
	return out
}

// vxReplaced replaces every occurrence from left to right.
func vxReplaced(s string, find string, by string) string {
	out := ""
	for i := 0; i < len(s); {
		if vxAt(s, i, find) {
			out += by
			i += len(find)
		} else {
			out += s[i : i+1]
			i++
		}
	}
	return out
}

func vxAnyText(tag string, max int) string {
	n := vxChoice(tag+" length", max+1)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, vxByte(tag))
	}
	return string(b)
}

// Searching and what depends on it.
func vhC28Find() {
	s := vxAnyText("text", vxParam("len"))
	find := vxAnyText("find", vxParam("find"))
	all := vxFindAll(s, find)
	first, last := -1, -1
	if len(all) > 0 {
		first, last = all[0], all[len(all)-1]
	}
	vxAssert(vx_core.V_intn_from_stringn_findn(s, find) == first, "find gives the first position or -1")
	vxAssert(vx_core.V_intn_from_stringn_findlastn(s, find) == last, "find last gives the last position or -1")
	vxAssert(vx_core.V_booleann_from_stringn_containsn(s, find) == (first >= 0), "contains agrees with find")
	vxAssert(vx_core.V_booleann_from_stringn_startsn(s, find) == (first == 0), "starts agrees with find")
	after, afterlast := s, s
	if first >= 0 {
		after, afterlast = s[first+len(find):], s[last+len(find):]
	}
	vxAssert(vx_core.V_stringn_from_stringn_aftern(s, find) == after, "after gives the rest or the whole text")
	vxAssert(vx_core.V_stringn_from_stringn_afterlastn(s, find) == afterlast, "after last gives the rest or the whole text")
	stripped := s
	if s != "" && s[0] == ':' {
		stripped = s[1:]
	}
	vxAssert(vx_core.V_stringn_stripcolon(s) == stripped, "one colon is stripped")
	ends := len(s) >= len(find) && s[len(s)-len(find):] == find
	vxAssert(BooleanFromStringEnds(s, find) == ends, "ends agrees with the text")
	before := s
	if ends {
		before = s[:len(s)-len(find)]
	}
	vxAssert(StringFromStringBefore(s, find) == before, "an ending is taken off once")
	if find != "" {
		by := vxStrIn("by", vxChoice("by length", 2), "xy")
		vxAssert(vx_core.V_stringn_from_stringn_findn_replacen(s, find, by) == vxReplaced(s, find, by), "every occurrence is replaced and nothing else")
		var apart []int
		for _, p := range all {
			if len(apart) == 0 || p >= apart[len(apart)-1]+len(find) {
				apart = append(apart, p)
			}
		}
		vxAssert(IntFromStringCount(s, find) == len(apart), "occurrences are counted")
		nth := vxChoice("nth", vxParam("len")+2)
		at := -1
		if nth > 0 && nth <= len(apart) {
			at = apart[nth-1]
		}
		vxAssert(IntFromStringFindNth(s, find, nth) == at, "the nth occurrence is found")
		vxCover("find")
	}
	start := vxChoice("start", vxParam("len")+3) - 1
	at := -1
	for _, p := range all {
		if at < 0 && p >= start {
			at = p
		}
	}
	vxAssert(IntFromStringFindStart(s, find, start) == at, "find from a position gives the first position from there")
}

// Substrings and repetition never fail.
func vhC28Cut() {
	s := vxAnyText("text", vxParam("len"))
	from, to := vxInt("from", -vxParam("num"), vxParam("num")), vxInt("to", -vxParam("num"), vxParam("num"))
	got := vx_core.V_stringn_from_string_startn_endn(s, from, to)
	if to < 0 {
		to += len(s)
	}
	want := ""
	for i := 0; i < len(s); i++ {
		if i >= from && i < to {
			want += s[i : i+1]
		}
	}
	vxAssert(got == want, "a substring has the characters between the positions")
	n := vxInt("times", -2, 4)
	want = ""
	for i := 0; i < n; i++ {
		want += s
	}
	vxAssert(vx_core.V_stringn_from_stringn_repeatn(s, n) == want, "a text is repeated")
	a, b := vxAnyText("a", 1), vxAnyText("b", 1)
	got = StringFromStringFromTo(s, a, b)
	i, j := 0, len(s)
	if all := vxFindAll(s, a); a != "" && len(all) > 0 {
		i = all[0]
	}
	if b != "" {
		for _, p := range vxFindAll(s, b) {
			if p >= i && j == len(s) {
				j = p
			}
		}
	}
	if a == "" && b == "" {
		vxAssert(got == "", "nothing is between the texts")
	} else {
		vxAssert(got == s[i:j], "the text between is given")
	}
	vxCover("cut")
}

// Splitting and joining.
func vhC28Split() {
	s := vxAnyText("text", vxParam("len"))
	delim := vxAnyText("delimiter", vxParam("delim"))
	vxAssume(delim != "")
	parts := vx_core.V_liststringn_from_stringn_splitn(s, delim)
	joined := ""
	for i, p := range parts {
		if i > 0 {
			joined += delim
		}
		joined += p
		vxAssert(len(vxFindAll(p, delim)) == 0, "a part does not hold the delimiter")
	}
	vxAssert(len(parts) > 0 && joined == s, "the parts are those of the text")
	vxAssert(vx_core.V_stringn_from_liststringn_joinn(parts, delim) == s, "join restores what split took apart")
	end := vxAnyText("end", 1)
	vxAssume(end != "")
	pieces := ListStringFromStringSplitByDelims(s, delim, end)
	joined = ""
	for _, p := range pieces {
		joined += p
	}
	vxAssert(joined == s, "the pieces are those of the text")
	vxCover("split")
}

// Upper case.
func vhC28Case() {
	s := vxAnyText("text", vxParam("len"))
	up := func(c byte) byte {
		if c >= 'a' && c <= 'z' {
			return c - 32
		}
		return c
	}
	for i := 0; i < len(s); i++ {
		vxAssume(s[i] < 128)
	}
	first, whole, each := "", "", ""
	for i := 0; i < len(s); i++ {
		c := string([]byte{up(s[i])})
		whole += c
		if i == 0 {
			first += c
		} else {
			first += s[i : i+1]
		}
		if i == 0 || s[i-1] == '-' {
			each += c
		} else {
			each += s[i : i+1]
		}
	}
	vxAssert(vx_core.V_stringn_uppercasefirst(s) == first, "only the first character changes")
	vxAssert(vx_core.V_stringn_uppercase(s) == whole, "every letter becomes upper case and nothing else")
	vxAssert(vx_core.V_stringn_ucasefirst_from_stringn_delimn(s, "-") == each, "the first character of every part changes")
	multi := []string{"é", "ß", "中", "🙂"}[vxChoice("letter", 4)]
	up1 := []string{"É", "ß", "中", "🙂"}
	got := vx_core.V_stringn_uppercasefirst(multi + s)
	ok := false
	for _, u := range append(up1, "SS", "ẞ", multi) {
		ok = ok || got == u+s
	}
	vxAssert(ok, "a first character of several bytes stays whole")
	vxCover("case")
}

// Lists of texts.
func vhC28List() {
	var list, match []string
	n := vxChoice("items", vxParam("items")+1)
	for i := 0; i < n; i++ {
		list = append(list, vxAnyText("item", 1))
	}
	n = vxChoice("others", vxParam("items")+1)
	for i := 0; i < n; i++ {
		match = append(match, vxAnyText("other", 1))
	}
	find := vxAnyText("find", 1)
	at := -1
	for i := len(list) - 1; i >= 0; i-- {
		if list[i] == find {
			at = i
		}
	}
	vxAssert(vx_core.V_intn_from_liststringn_findn(list, find) == at, "find gives the first position or -1")
	vxAssert(vx_core.V_booleann_from_liststringn_containsn(list, find) == (at >= 0), "contains agrees with find")
	in := func(s string, l []string) bool {
		ok := false
		for _, x := range l {
			ok = ok || x == s
		}
		return ok
	}
	a, b := ListStringFromListStringMatch(list, match), ListStringFromListStringNotMatch(list, match)
	for _, s := range list {
		if in(s, match) {
			vxAssert(len(a) > 0 && a[0] == s, "the matching texts are kept in order")
			a = a[1:]
		} else {
			vxAssert(len(b) > 0 && b[0] == s, "the other texts are kept in order")
			b = b[1:]
		}
	}
	vxAssert(len(a) == 0 && len(b) == 0, "no text is added")
	u := ListStringUniques(append([]string{}, list...))
	for i, s := range u {
		vxAssert(in(s, list) && (i == 0 || u[i-1] < s), "the texts are ordered and different")
	}
	for _, s := range list {
		vxAssert(in(s, u), "no text is lost")
	}
	joined := ""
	for _, s := range list {
		joined += s
	}
	vxAssert(vx_core.V_stringn_from_liststringn(list) == joined, "texts are put together in order")
	vxCover("list")
}

// Indentation, quotes and trimming.
func vhC28Lines() {
	s := vxAnyText("text", vxParam("len"))
	indent := vxStrIn("indent", vxChoice("indent length", 3), " \t")
	want := ""
	for i := 0; i < len(s); i++ {
		want += s[i : i+1]
		if s[i] == '\n' {
			want += indent
		}
	}
	got := StringFromStringIndent(s, indent)
	vxAssert(got == want, "every line but the first is indented")
	vxAssert(StringOutdentLines(got, indent) == s, "outdenting restores the text")
	quoted := "\"" + vxReplaced(s, "\"", "\\\"") + "\""
	clean := true
	for i := 0; i < len(s); i++ {
		clean = clean && s[i] != '\\'
	}
	if clean {
		vxAssert(StringRemoveQuotes(quoted) == s, "removing quotes restores the text")
	}
	vxCover("lines")
}

func vxLines(s string) []string {
	out := []string{""}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, "")
		} else {
			out[len(out)-1] += s[i : i+1]
		}
	}
	return out
}

// The comparison of an expected text with an actual one.
func vhC28Compare() {
	a := vxStrIn("expected", vxChoice("expected length", vxParam("len")+1), "ab\n")
	b := vxStrIn("actual", vxChoice("actual length", vxParam("len")+1), "ab\n")
	size := vxChoice("size", 3)
	got := vx_core.V_stringn_compare_expectedn_actualn(a, b, size, vx_core.V_msgblock_from_namen("x"))
	if a == b {
		vxAssert(got == "", "equal texts have no difference")
		vxCover("equal")
		return
	}
	la, lb := vxLines(a), vxLines(b)
	line := -1
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "", ""
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y && line < 0 {
			line = i
		}
	}
	vxTrace(got)
	vxAssert(got != "", "a difference is told")
	if line >= 0 {
		head := "Line: " + vx_core.V_stringn_from_intn(line) + "\n"
		vxAssert(vxAt(got, 0, head), "the first different line is told")
		vxAssert(len(vxFindAll(got, "* Error *")) > 0, "a difference is shown")
	}
	vxCover("different")
}

// Trimming, counting, conversions and positions.
func vhC28Misc() {
	s := vxAnyText("text", vxParam("len"))
	for i := 0; i < len(s); i++ {
		vxAssume(s[i] < 128)
	}
	space := func(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }
	a, b := 0, len(s)
	for a < b && space(s[a]) {
		a++
	}
	for a < b && space(s[b-1]) {
		b--
	}
	vxAssert(StringTrim(s) == s[a:b], "trimming takes the space around a text")
	find := vxAnyText("find", 1)
	if find != "" {
		vxAssert(IntCountFromStringFind(s, find) == len(vxFindAll(s, find)), "occurrences are counted")
	}
	vxAssert(BooleanFromStringEquals(s, find) == (s == find), "equal texts are equal")
	end := vxAnyText("end", 1)
	both := vxAt(s, 0, find) && len(s) >= len(end) && s[len(s)-len(end):] == end
	vxAssert(BooleanFromStringStartsEnds(s, find, end) == both, "a text starts and ends with others")
	n := vxChoice("indent", 3)
	want := ""
	for i := 0; i < len(s); i++ {
		want += s[i : i+1]
		if s[i] == '\n' {
			want += "    "[:2*n]
		}
	}
	vxAssert(StringFromStringIndent2(s, n) == want, "every line but the first is indented by two spaces for each level")
	line, pos := 0, 0
	for i := 0; i < len(s); i++ {
		vxAssert(IntFromStringLineChar(s, line, pos) == i, "a line and character give the position")
		pos++
		if s[i] == '\n' {
			line, pos = line+1, 0
		}
	}
	num := []int{0, 1, -1, 7, 10, -10, 99, 2147483647, -2147483648}[vxChoice("number", 9)]
	vxAssert(IntFromString(vx_core.V_stringn_from_intn(num)) == num, "a number written and read is the same")
	yes := vxBool("boolean")
	if yes {
		vxAssert(StringFromBoolean(yes) == "true" && StringByteFromBoolean(yes) == "1", "true is written")
	} else {
		vxAssert(StringFromBoolean(yes) == "false" && StringByteFromBoolean(yes) == "0", "false is written")
	}
	vxCover("misc")
}
