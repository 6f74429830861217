package vxlisp

import (
	"strings"
)

func init() {
	vxHarness["vhC35Members"] = vhC35Members
}

// vxMentions finds the members, whose names are "qz" and a letter and whose types are
// "ty", their number and "x", in generated code.
func vxMentions(toks []vxTok, letters []byte) []vxMention {
	var out []vxMention
	for _, t := range toks {
		vxAssert(t.kind != 'e', "the code can be read")
		if i := strings.Index(t.text, "qz"); i >= 0 {
			found := -1
			for j := range letters {
				if found < 0 && t.text[i+2] == letters[j] {
					found = j
				}
			}
			vxAssert(found >= 0, "the names are those written")
			out = append(out, vxMention{found, t.text[:i] + "@" + t.text[i+3:]})
		} else if i := strings.Index(t.text, "ty"); i >= 0 && i+3 < len(t.text) && t.text[i+3] == 'x' {
			out = append(out, vxMention{int(t.text[i+2] - '0'), t.text[:i] + "#" + t.text[i+4:]})
		}
	}
	return out
}

// The properties of a type and the parameters of a function, of any names.
func vhC35Members() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	files := vxGenFiles(lang)
	fixed := vxParam("fixed") > 0
	n := 2 + vxChoice("members", vxParam("members")-1)
	kind := vxPick("kind", " : struct", " : list :allowtypes [string]", " : map :allowtypes [string]", "")
	vxGenMore = vxGenNew
	for i := 0; i < n; i++ {
		vxGenMore += "(type ty" + vxDumpInt(i) + "x" + kind + ")\n"
	}
	var letters []byte
	members, given, empty := "", "", ""
	for i := 0; i < n; i++ {
		c := "kcxaqfzb"[i]
		if !fixed {
			c = vxByte("letter")
			vxAssume(c >= 'a' && c <= 'z')
			for _, o := range letters {
				vxAssume(c != o)
			}
		}
		letters = append(letters, c)
		name := "qz" + string([]byte{c})
		members += " " + name + " : ty" + vxDumpInt(i) + "x"
		given += " :" + name + " " + name
		empty += " :" + name + " (ty" + vxDumpInt(i) + "x)"
	}
	text := "(package p)\n"
	place := vxChoice("place", 5)
	if place == 0 {
		text += "(func t : string [" + members + "])\n"
	} else {
		text += "(type t : struct :properties [" + members + "])\n"
	}
	switch place {
	case 2:
		text += "(const c : t (t" + empty + "))\n"
	case 3:
		text += "(func f : t [" + members + "] (t" + given + "))\n"
	case 4:
		text += "(func f : t (t" + empty + "))\n"
	}
	vxTrace(text)
	made := vxGenerateFiles(lang, text, "src", files[:len(files)-1]...)
	for _, code := range made {
		ms := vxMentions(vxTokens(lang, code), letters)
		counts := make([]int, n)
		for _, m := range ms {
			vxAssert(m.member >= 0 && m.member < n, "the types are those written")
			counts[m.member]++
		}
		vxTrace(vxDumpInt(counts[0]) + " " + vxDumpInt(counts[n-1]))
		vxAssert(counts[0] > 0, "the members are generated")
		for i := 1; i+1 < n; i++ {
			vxAssert(counts[i] == counts[0], "every member is used alike")
		}
		last := 0
		if lang == "js" && place > 0 {
			last = 2
		}
		vxAssert(counts[n-1] == counts[0]+last, "the last member is used alike")
		vxAssert(vxSections(ms, n, map[int]bool{}), "every member goes with its own name and type, in order")
	}
	vxGenMore = ""
	vxCover(lang)
}
