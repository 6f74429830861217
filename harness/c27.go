package vxlisp

func init() {
	vxHarness["vhC27Coverage"] = vhC27Coverage
}

// vxFigures are the figures of a generated test file by the names before them.
func vxFigures(toks []vxTok) map[string]int {
	out := map[string]int{}
	section, key := "", ""
	for _, t := range toks {
		vxAssert(t.kind != 'e', "the code can be read")
		if t.kind == 's' {
			key = t.text
			if key != "" && key[0] == ':' {
				key = key[1:]
			}
			switch key {
			case "constnums", "docnums", "funcnums", "totalnums", "typenums", "bigospacenums", "bigotimenums", "typemap", "constmap", "funcmap":
				section = key
				out[section]++
				key = ""
			}
		} else if t.kind == 'w' && section != "" && key != "" && t.text[0] >= '0' && t.text[0] <= '9' {
			n := 0
			for i := 0; i < len(t.text); i++ {
				n = n*10 + int(t.text[i]-'0')
			}
			_, ok := out[section+"/"+key]
			vxAssert(!ok, "a figure is given once")
			out[section+"/"+key] = n
			key = ""
		} else if t.kind == 'w' && (t.text == "class" || t.text == "return") {
			section = ""
		}
	}
	return out
}

// vxTestNames are the test functions declared or defined in C++ code.
func vxTestNames(toks []vxTok) map[string]int {
	out := map[string]int{}
	for i := 0; i+2 < len(toks); i++ {
		if toks[i].text == "Type_testcase" && toks[i+1].kind == 'w' && toks[i+2].text == "(" {
			out[toks[i+1].text]++
		}
	}
	return out
}

// The figures of any package.
func vhC27Coverage() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	text := "(package p)\n"
	total := map[string]int{}
	tested := map[string]int{}
	docs := 0
	tests := 0
	overloads := 0
	want := map[string]int{}
	names := []string{"na", "nb", "nc", "nd", "ne", "ng", "nh", "ni", "nj"}
	n := vxChoice("declarations", vxParam("decls")+1)
	many := vxParam("many") > 0 // many declarations of one kind or of all in turn, the first few tested and the last documented
	turn, first, last, each := 0, 0, 0, 0
	if many {
		turn, first, last, each = vxChoice("turn", 4), vxChoice("first", n+1), 0, 1+vxChoice("each", vxParam("tests"))
		if first > 0 {
			last = n / first
		}
	}
	for i := 0; i < n; i++ {
		kind := ""
		if many && turn < 3 {
			kind = []string{"type", "const", "func"}[turn]
		} else if many {
			kind = []string{"func", "type", "const"}[i%3]
		} else {
			kind = []string{"type", "const", "func", "func"}[vxChoice("kind", 4)]
		}
		name := names[i]
		id := name
		call := ""
		if !many && kind == "func" && vxBool("overload") {
			// another function of the same name, which other declarations may come between
			name = "f"
			id = name
			if overloads > 0 {
				id += "_" + vxDumpInt(overloads)
			}
			overloads++
		}
		text += "(" + kind + " " + name
		switch kind {
		case "type":
			text += " : struct :properties [a : string]"
			call = "\"y\""
		case "const":
			text += " : string \"x\""
			call = name
		default:
			text += " : string ["
			call = "(" + name
			for j := 0; j < overloads; j++ {
				text += names[j] + " : string "
				call += " \"y\""
			}
			text += "] \"z\""
			call += ")"
		}
		k, doc := 0, false
		if !many {
			k, doc = vxChoice("tests", vxParam("tests")+1), vxBool("doc")
		} else {
			if i < first {
				k = each
			}
			doc = i >= n-last
		}
		if doc {
			text += " :doc \"d\""
			docs++
		}
		if k > 0 {
			text += " :test"
			tested[kind]++
		}
		for j := 0; j < k; j++ {
			text += " (test \"x\" " + call + ")"
		}
		text += ")\n"
		tests += k
		total[kind]++
		want[kind+"map/"+id] = k
	}
	vxTrace(text)
	files := vxGenFiles(lang)
	files = files[len(files)-1:]
	if lang == "cpp" {
		files = append(files, "test/p_test.hpp")
	}
	made := vxGenerateFiles(lang, text, "test", files...)
	toks := vxTokens(lang, made[0])
	got := vxFigures(toks)
	nums := func(section string, a int, b int) {
		pct := 100
		if b > 0 {
			pct = a * 100 / b
		}
		vxAssert(got[section+"/tests"] == a, "the tested declarations are counted")
		vxAssert(got[section+"/total"] == b, "the declarations are counted")
		vxAssert(got[section+"/pct"] == pct, "the percentage agrees with the counts")
		vxAssert(got[section] == 1, "the figures are given once")
	}
	// known finding: some generators count the functions of one name once
	functotal, once := total["func"], total["func"]
	if overloads > 1 {
		once -= overloads - 1
	}
	known := once != functotal && (lang == "java" || lang == "csharp" || lang == "kotlin") && got["funcnums/total"] == once
	if known {
		functotal = once
	}
	nums("typenums", tested["type"], total["type"])
	nums("constnums", tested["const"], total["const"])
	nums("funcnums", tested["func"], functotal)
	all := total["type"] + total["const"] + total["func"]
	nums("totalnums", tested["type"]+tested["const"]+tested["func"], total["type"]+total["const"]+functotal)
	nums("docnums", docs, all)
	for k, v := range want {
		n, ok := got[k]
		vxAssert(ok && n == v, "the tests of each declaration are counted")
	}
	count := 0
	for k := range got {
		if len(k) > 7 && (k[:7] == "typemap" || k[:7] == "funcmap") || len(k) > 8 && k[:8] == "constmap" {
			count++
		}
	}
	vxAssert(count == all, "nothing else is counted")
	written := 0
	for _, t := range toks {
		if t.kind == 'w' && t.text == "f_test" {
			written++
		}
	}
	vxAssert(written == tests, "every test is generated once")
	if lang == "cpp" {
		defined, declared := vxTestNames(toks), vxTestNames(vxTokens(lang, made[1]))
		for name, n := range defined {
			vxAssert(n == 1 && declared[name] == 1, "every test function is declared and defined once")
		}
		vxAssert(len(defined) == len(declared), "no other test function is declared")
	}
	vxCover(lang)
	vxKnown("overloads", known)
	vxAssert(!known, "functions of one name are counted one by one")
}
