package vxlisp

func init() {
	vxHarness["vhC20Literal"] = vhC20Literal
}

// vxText is a text and how it is written in a source literal.
// The third result is the written text in which only the quotes are still escaped.
func vxText(n int, escapes int) (string, string, string) {
	written, denoted, quoted := "", "", ""
	newline := false
	for i := 0; i < n; i++ {
		switch vxChoice("item", escapes) {
		case 0:
			c := vxByte("char")
			vxAssume(c >= 32 && c < 127 && c != '"' && c != '\\' && !(newline && c == ' '))
			written += string([]byte{c})
			denoted += string([]byte{c})
			quoted += string([]byte{c})
			newline = false
		case 1:
			written += "\\\""
			denoted += "\""
			quoted += "\\\""
			newline = false
		case 2:
			written += "\\n"
			denoted += "\n"
			quoted += "\n"
			newline = false
		case 3:
			written += "\n"
			denoted += "\n"
			quoted += "\n"
			newline = true
		case 4:
			written += "\\t"
			denoted += "\t"
			quoted += "\t"
			newline = false
		default:
			word := vxPick("word", "\u00e9", "output ", "output.", "output->", ");", "// ", "/*")
			written += word
			denoted += word
			quoted += word
			newline = false
		}
	}
	vxAssume(!newline)
	return written, denoted, quoted
}

// A literal in any place, in any language.
func vhC20Literal() {
	lang := vxGenLangs[vxChoice("lang", len(vxGenLangs))]
	place := vxChoice("place", 5)
	vxAssume(lang != "swift" || place == 4) // only tests have literals in Swift
	pkg := func(lit string) string {
		lit = "\"" + lit + "\""
		head := "(package p)\n(func o : string [a : string b : any] a)\n"
		switch place {
		case 0:
			return head + "(const c : string\n" + lit + ")\n"
		case 1:
			return head + "(func f : string\n" + lit + ")\n"
		case 2:
			return head + "(func f : string\n (o \"x\" (o\n" + lit + " 2)))\n"
		case 3:
			return head + "(func f : string\n (let : string [b : string :=\n" + lit + "] b))\n"
		}
		return head + "(func f : string\n \"x\"\n :test (test\n" + lit + " (f)))\n"
	}
	which := 0
	if place == 4 {
		which = len(vxGenFiles(lang)) - 1
	} else if lang == "cpp" {
		which = 1
	}
	plain := vxTokens(lang, vxGenerate(lang, pkg("zzq"), which))
	written, denoted, quoted := vxText(vxParam("len"), vxParam("items"))
	code := vxGenerate(lang, pkg(written), which)
	vxTrace(code)
	n := vxSameTokens(plain, vxTokens(lang, code), "zzq", denoted, quoted)
	vxAssert(n >= 1, "the literal is in the code")
	vxCover(lang)
}
