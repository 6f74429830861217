package vxlisp

func init() {
	vxHarness["vhC26Comment"] = vhC26Comment
}

// vxDocText is a text with the pieces that could end or open a comment.
func vxDocText(n int) string {
	text := ""
	newline := false
	for i := 0; i < n; i++ {
		c := vxByte("char")
		vxAssume(c == '\n' || c >= 32 && c < 127 && c != '"' && !(i == n-1 && c == '\\') && !(newline && c == ' '))
		newline = c == '\n'
		text += string([]byte{c})
	}
	vxAssume(!newline)
	return text
}

// Documentation of any declaration, and the source text of a test, leave the code as it is.
func vhC26Comment() {
	lang := vxGenLangs[vxChoice("lang", len(vxGenLangs))]
	place := vxChoice("place", 8)
	which := vxChoice("file", len(vxGenFiles(lang)))
	pkg := func(text string) string {
		doc := " :doc\n\"" + text + "\""
		at := func(n int) string {
			if n == place {
				return doc
			}
			return ""
		}
		comment := ""
		if place == 7 {
			comment = "\n// " + text + "\n"
		}
		return "(package p" + at(0) + ")\n(type t : struct :properties [a : string" + at(1) + " b : int]" + at(2) + ")\n" +
			"(const c : string \"x\"" + at(3) + ")\n(type l : list :allowtypes [t]" + at(6) + ")\n" +
			"(func f : string [a : string" + at(4) + " b : int]" + comment + " a" + at(5) + "\n :test (test \"x\" (f" + comment + " \"y\" 1)))\n"
	}
	plain := vxTokens(lang, vxGenerate(lang, pkg("zzq"), which))
	text := vxDocText(vxParam("len"))
	for i := 0; place == 7 && i < len(text); i++ {
		vxAssume(text[i] != '\n' && text[i] != '\\')
	}
	code := vxGenerate(lang, pkg(text), which)
	vxTrace(code)
	vxSameTokens(plain, vxTokens(lang, code), "zzq", text, text)
	vxCover(lang)
}
