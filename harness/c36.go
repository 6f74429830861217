package vxlisp

import (
	"strings"
)

func init() {
	vxHarness["vhC36Tests"] = vhC36Tests
}

// vxTestOf is a test of a package: what it is written for and as.
type vxTestOf struct {
	decl   int
	letter byte
	text   string
}

// Every test of a package is generated once, for its own declaration, in order.
func vhC36Tests() {
	lang := vxGenLangs[vxChoice("lang", 6)]
	files := vxGenFiles(lang)
	kind := vxChoice("kind", 3) // how the actual value is written
	gap := vxPick("gap", " ", "  ")
	heads := []string{
		"(type da : string",
		"(const db : string \"x\"",
		"(func dc : string [x : string]\n x",
		"(func dd : string\n \"y\"",
		"(func dc : string [x : string y : string]\n y", // another overload
	}
	names := []string{"t_da", "c_db", "f_dc", "f_dd", "f_dc_1"}
	text := "(package p)\n(func fz : string [a : string]\n a)\n"
	budget := vxParam("tests")
	many := vxParam("many") > 0 // many tests of one declaration, one or none of the others
	most, rest := 0, 0
	if many {
		most, rest = vxChoice("most", len(heads)), vxChoice("rest", 2)
	}
	var tests []vxTestOf
	for d, head := range heads {
		text += head
		n := rest
		if !many {
			n = vxChoice("tests", 1+budget)
			budget -= n
		} else if d == most {
			n = 1 + vxChoice("tests", budget)
		}
		for i := 0; i < n; i++ {
			c := "kcxaqfzbmd"[len(tests)%10]
			if !many {
				c = vxByte("letter")
				vxAssume(c >= 'a' && c <= 'z')
				for _, t := range tests {
					vxAssume(c != t.letter)
				}
			}
			l := string([]byte{c})
			actual := "\"qa" + l + "\""
			switch kind {
			case 1:
				actual = "(fz" + gap + actual + ")"
			case 2:
				actual = "(let [v : string := " + actual + "] v)"
			}
			t := "(test" + gap + "\"qe" + l + "\"" + gap + actual + ")"
			tests = append(tests, vxTestOf{d, c, t})
			if i == 0 {
				text += "\n :test"
			}
			text += "\n " + t
		}
		text += ")\n"
	}
	only := vxChoice("only", 1+4*vxParam("only")) - 1 // a declaration the command asks for
	if only >= 0 {
		vxGenCmd = " :filter " + vxGenName(lang) + "/d" + string([]byte{"abcd"[only]})
	}
	vxTrace(text)
	code := vxGenerateFiles(lang, text, "test", files[len(files)-1])[0]
	vxGenCmd = ""
	toks := vxTokens(lang, code)
	cur, cases := -1, make([]int, len(heads))
	seen := make([]string, len(tests)) // what is found of every test, in order
	mentions := make([][]vxMention, len(heads))
	for i, t := range toks {
		vxAssert(t.kind != 'e', "the code can be read")
		if t.kind == 'w' {
			for d, name := range names {
				if t.text == name || strings.HasPrefix(t.text, name+"_test") {
					cur = d
				}
			}
			if j := strings.LastIndex(t.text, "_"); j >= 0 && cur >= 0 && strings.Contains(t.text, "test") && t.text[j+1] >= '1' && t.text[j+1] <= '9' {
				m := int(t.text[j+1] - '1')
				mentions[cur] = append(mentions[cur], vxMention{m, t.text[:j]})
			}
			continue
		}
		if t.kind != 's' {
			continue
		}
		if t.text == ":casename" {
			j := i + 1
			for toks[j].kind != 's' {
				j++
			}
			vxAssert(cur >= 0 && (toks[j].text == names[cur][2:] || toks[j].text == names[cur][2:4]), "a test case has the name of its declaration")
			cases[cur]++
		}
		found := -1
		what := ""
		switch {
		case strings.HasPrefix(t.text, "(test"):
			e := strings.Index(t.text, "qe")
			vxAssert(e >= 0, "a description has the test's text")
			for k, o := range tests {
				if found < 0 && t.text[e+2] == o.letter {
					found, what = k, "d"
				}
			}
			vxAssert(found >= 0 && t.text == tests[found].text, "a description is the test as written")
		case len(t.text) == 3 && (t.text[:2] == "qe" || t.text[:2] == "qa"):
			for k, o := range tests {
				if found < 0 && t.text[2] == o.letter {
					found, what = k, t.text[1:2]
				}
			}
			vxAssert(found >= 0, "the values are those written")
		}
		if found < 0 {
			continue
		}
		seen[found] += what
		vxAssert(tests[found].decl == cur, "a test is generated for its declaration")
		first := 0
		for tests[first].decl != cur {
			first++
		}
		mentions[cur] = append(mentions[cur], vxMention{found - first, what})
	}
	counts := make([]int, len(heads))
	for k, t := range tests {
		if only >= 0 && only != t.decl {
			vxAssert(seen[k] == "", "no test is generated that is not asked for")
			continue
		}
		counts[t.decl]++
		vxAssert(seen[k] == "dea" || seen[k] == "ead", "a test is described once and compares its values in order")
	}
	for d, n := range counts {
		vxAssert(cases[d] == 1 || cases[d] == 0 && n == 0, "a declaration with tests has one test case")
		if n > 1 {
			vxAssert(vxSections(mentions[d], n, map[int]bool{}), "the tests of a declaration are in order")
		}
	}
	vxCover(lang)
}
