package vxlisp

func init() {
	vxHarness["vhC04One"] = vhC04One
	vxHarness["vhC04Two"] = vhC04Two
	vxHarness["vhC04All"] = vhC04All
}

// The words of one file per kind of declaration; the text between two words is what varies.
var vhC04Texts = []string{
	"(package p :doc \"D\" :libs (lib a :path q/r :doc \"E\") (lib b :path s) ) (const c : int :alias \"k\" :doc `E` 5 :test (test 5 (g 1) ) )",
	"(package p) (func f : int :doc \"D\" :private [ a : int := 1 :doc \"X\" b : any-1 :: any-2 :default c : int :... ] (g a [ 1 x ] (:k m) ) :test (test 1 (f 2) ) :alias \"h\" )",
	"(package p) (type t : struct :alias \"u\" :properties [ x : int :doc \"X\" y : string :default ] :allowtypes [ i j ] :allowfuncs [ k l ] :traits [ m ] :test (test 1 2) :mutable :default 7 )",
	"(package p) (func f : int (let : int [ a : int := 1 b : int := (h 2) ] (fn : int [ c : int ] (<- a (g b) (k c) ) ) ) ) (func g : int (native :js \"x\" (:auto) ) )",
	"(project p :version 1 :author \"A\" :javadomain com :doc \"D\" :libs (lib a :path q) :projects \"r\" s :paths (path n :path w :doc \"E\") :cmds (cmd b :code :source :lang :js :path z :port 80) (cmd c :code :doc) )",
}

// vxWords splits a text at its spaces; quoted text holds none.
func vxWords(s string) []string {
	var out []string
	w := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == ' ' {
			if w != "" {
				out = append(out, w)
			}
			w = ""
		} else if w == "" && (c == '(' || c == '[') {
			out = append(out, string(c))
		} else if c == ')' || c == ']' {
			if w != "" {
				out = append(out, w)
			}
			w = ""
			out = append(out, string(c))
		} else {
			w += string(c)
		}
	}
	return append(out, w)[:len(out)]
}

// vhC04Gap is the text that must stand between two words.
func vhC04Gap(prev string, next string) string {
	if prev == "(" || prev == "[" || next == ")" || next == "]" {
		return ""
	}
	return " "
}

func vhC04Comment(n int, line bool) string {
	s := vxStrIn("comment$", n, "a \"`()[]:*/;")
	for i := 0; i+1 < n; i++ {
		vxAssume(line || !(s[i] == '*' && s[i+1] == '/'))
	}
	return s
}

// vhC04Other is another way to write the gap; top tells whether it lies between declarations.
func vhC04Other(prev string, gap string, top bool, nl string, n int) string {
	if top {
		switch vxChoice("gap", 5) {
		case 0:
			return gap + nl
		case 1:
			return "\t"
		case 2:
			return "   "
		case 3:
			return nl + "/*" + vhC04Comment(n, false) + "*/" + nl
		}
		return ""
	}
	if prev != "(" && prev != "[" {
		gap = " "
	}
	switch vxChoice("gap", 9) {
	case 0:
		return nl + " "
	case 1:
		return "\t"
	case 2:
		return gap + "  "
	case 3:
		return nl + "   " + nl + "  "
	case 4:
		return gap + "/*" + vhC04Comment(n, false) + "*/ "
	case 5:
		return gap + "/*" + vhC04Comment(n, false) + nl + "*/" + nl + " "
	case 6:
		return gap + "//" + vhC04Comment(n, true) + nl + " "
	case 7:
		return gap + "// a" + nl + " /*b*/ "
	}
	return gap + "/*a*/ //b" + nl + " "
}

func vhC04Dump(k int, text string) (string, bool) {
	vxTrace(text)
	if k == 4 {
		prj, msg := ProjectFromTextblock(NewTextblockFromText(text))
		return vxDumpProject(prj), msg.iserror
	}
	pkg, bad := vxPackage(text)
	return vxDumpPackage(pkg), bad
}

func vhC04Run(gaps func(words []string, nl string) []string) {
	k := vxChoice("file", len(vhC04Texts))
	words := vxWords(vhC04Texts[k])
	nl := vxPick("newline", "\n", "\r\n", "\r")
	plain := ""
	for i, w := range words {
		if i > 0 {
			plain += vhC04Gap(words[i-1], w)
		}
		plain += w
	}
	g := gaps(words, nl)
	text := ""
	for i, w := range words {
		if i > 0 {
			text += g[i]
		}
		text += w
	}
	want, bad := vhC04Dump(k, plain)
	vxAssert(!bad, "the plain layout is accepted")
	got, bad := vhC04Dump(k, text)
	vxObserve("read", got)
	vxAssert(!bad, "the other layout is accepted")
	vxAssert(got == want, "the layout does not change what is read")
	vxCover("compared")
}

func vhC04Top(words []string, i int) bool {
	depth := 0
	for _, w := range words[:i] {
		switch w {
		case "(", "[":
			depth++
		case ")", "]":
			depth--
		}
	}
	return depth == 0
}

func vhC04Plain(words []string) []string {
	g := make([]string, len(words))
	for i := 1; i < len(words); i++ {
		g[i] = vhC04Gap(words[i-1], words[i])
	}
	return g
}

func vhC04One() {
	vhC04Run(func(words []string, nl string) []string {
		g := vhC04Plain(words)
		i := 1 + vxChoice("place", len(words)-1)
		g[i] = vhC04Other(words[i-1], g[i], vhC04Top(words, i), nl, vxParam("n"))
		return g
	})
}

func vhC04Two() {
	vhC04Run(func(words []string, nl string) []string {
		g := vhC04Plain(words)
		i := 1 + vxChoice("place", len(words)-1)
		j := 1 + vxChoice("place2", len(words)-1)
		vxAssume(i < j && j <= i+vxParam("far"))
		g[i] = vhC04Other(words[i-1], g[i], vhC04Top(words, i), nl, 1)
		g[j] = vhC04Other(words[j-1], g[j], vhC04Top(words, j), nl, 1)
		return g
	})
}

// vhC04All writes every gap inside declarations in the same other way.
func vhC04All() {
	vhC04Run(func(words []string, nl string) []string {
		g := vhC04Plain(words)
		how := vxChoice("how", 6)
		c := vhC04Comment(1, how == 4)
		for i := 1; i < len(words); i++ {
			if vhC04Top(words, i) {
				continue
			}
			switch how {
			case 0:
				g[i] += nl + " "
			case 1:
				g[i] += "\t"
			case 2:
				g[i] += " /*" + c + "*/ "
			case 3:
				g[i] += nl + " /*" + c + nl + "*/ "
			case 4:
				g[i] += " //" + c + nl + " "
			case 5:
				g[i] += " //a" + nl + " /*" + c + "*/ "
			}
		}
		return g
	})
}
