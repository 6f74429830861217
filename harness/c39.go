package vxlisp

import (
	"strings"
)

func init() {
	vxHarness["vhC39Const"] = vhC39Const
}

// vxConstOf is a constant as written.
type vxConstOf struct {
	name  string
	typ   string
	text  string   // its value
	made  []string // the literals of the value, texts in quotes
	props []string // the properties of its type
}

// vxConstKind chooses a constant of a kind and its value.
func vxConstKind(kind int, name string, fixed bool) vxConstOf {
	c := vxConstOf{name: name}
	quoted := func(what string) string {
		s := what
		if !fixed && len(c.made) < 2 {
			s = vxPick("text", what, "", " "+what+"$x ")
		}
		c.made = append(c.made, "'"+s+"'")
		return " \"" + s + "\""
	}
	n := 2
	if !fixed && kind >= 5 {
		n = vxChoice("items", 4)
	}
	if n > 0 && kind >= 5 {
		c.text = " (" + []string{"sl", "sm", "t", "il"}[kind-5]
	}
	switch kind {
	case 0:
		c.typ = "string"
		if fixed || vxBool("value") {
			c.text = quoted("q" + name)
		} else {
			c.made = []string{"''"}
		}
	case 1:
		c.typ = "int"
		c.made = []string{"0"}
		if fixed || vxBool("value") {
			c.made[0] = "7"
			if !fixed {
				c.made[0] = vxPick("int", "7", "0", "42", "-3")
			}
			c.text = " " + c.made[0]
		}
	case 2:
		c.typ = "boolean"
		c.made = []string{"false"}
	case 3:
		c.typ = "float"
		c.made = []string{"0.0f"}
	case 4:
		c.typ = "decimal"
		c.made = []string{"'0'"}
		if fixed || vxBool("value") {
			s := "1.5"
			if !fixed {
				s = vxPick("decimal", "1.5", "-0.25")
			}
			c.made[0] = "'" + s + "'"
			c.text = " " + s
		}
	case 5:
		c.typ = "sl"
		for i := 0; i < n; i++ {
			c.text += quoted("q" + name + vxDumpInt(i))
		}
	case 6:
		c.typ = "sm"
		keys := []string{"kb", "ka", "kc"}
		for i := 0; i < n; i++ {
			c.made = append(c.made, "':"+keys[i]+"'")
			c.text += " :" + keys[i] + quoted("q"+name+vxDumpInt(i))
		}
	case 7:
		c.typ = "t"
		c.props = []string{"pa", "p-b", "pc"}
		first := 0
		if !fixed {
			first = vxChoice("first", 3)
		}
		for i := 0; i < n; i++ {
			p := c.props[(first+i)%3]
			c.made = append(c.made, "':"+p+"'")
			c.text += " :" + p + quoted("q"+name+vxDumpInt(i))
		}
	default:
		c.typ = "il"
		for i := 0; i < n; i++ {
			c.made = append(c.made, vxDumpInt(i+5))
			c.text += " " + vxDumpInt(i+5)
		}
	}
	if n > 0 && kind >= 5 {
		c.text += ")"
	}
	return c
}

// vxConstBody finds the code that fills a constant: from the brace on, up to its end.
func vxConstBody(lang string, toks []vxTok, name string) []vxTok {
	var out []vxTok
	found := 0
	class := "Const_" + name
	if lang == "cpp" {
		class = "Class_" + name
	}
	in := false
	for i := 0; i < len(toks); i++ {
		if toks[i].kind != 'w' {
			continue
		}
		if toks[i].text == class && (lang != "cpp" || i+3 < len(toks) && toks[i+3].text == "vx_const_new") {
			in = lang == "cpp" || toks[i-1].text == "class"
		} else if strings.HasPrefix(toks[i].text, "c_") {
			in = false
		}
		if !in || toks[i].text != "const_new" && toks[i].text != "vx_const_new" {
			continue
		}
		in = false
		j := i
		for toks[j].text != ")" || toks[j].kind == 's' {
			j++
		}
		for toks[j].text != "{" && toks[j].text != ";" {
			j++
		}
		if toks[j].text == ";" { // a call of it
			continue
		}
		found++
		depth := 0
		for k := j; k < len(toks); k++ {
			if toks[k].kind == 'p' && toks[k].text == "{" {
				depth++
			} else if toks[k].kind == 'p' && toks[k].text == "}" {
				depth--
			}
			out = append(out, toks[k])
			if depth == 0 {
				break
			}
		}
	}
	vxAssert(found == 1, "a constant is filled once")
	return out
}

// vxLiterals are the texts and numbers of code.
func vxLiterals(toks []vxTok) []string {
	var out []string
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t.kind == 's' {
			out = append(out, "'"+t.text+"'")
		} else if t.kind == 'w' && (t.text == "true" || t.text == "false") {
			out = append(out, t.text)
		} else if t.kind == 'w' && t.text[0] >= '0' && t.text[0] <= '9' {
			s := t.text
			if i > 0 && toks[i-1].kind == 'p' && toks[i-1].text == "-" {
				s = "-" + s
			}
			if i+2 < len(toks) && toks[i+1].kind == 'p' && toks[i+1].text == "." && toks[i+2].kind == 'w' {
				s += "." + toks[i+2].text
				i += 2
			}
			out = append(out, s)
		}
	}
	return out
}

// vxConstId is the name of a constant in code.
func vxConstId(name string) string {
	return strings.ReplaceAll(name, "-", "_")
}

// vxConstMade checks that a constant is made, filled and described.
func vxConstMade(lang string, toks []vxTok, c vxConstOf) {
	id := vxConstId(c.name)
	made, filled := 0, 0
	for i := range toks {
		if toks[i].kind != 'w' {
			continue
		}
		next := func(n int) string {
			if i+n < len(toks) {
				return toks[i+n].text
			}
			return ""
		}
		if toks[i].text == "const_new" || toks[i].text == "vx_const_new" {
			j := i + 1
			for next(j-i) == "(" || next(j-i) == "p" || next(j-i) == ":" {
				j++
			}
			if toks[j].text == "c_"+id {
				filled++
				for j = i - 1; toks[j].kind == 'p'; j-- {
				}
				vxAssert(toks[j].text == "Const_"+id || toks[j].text == "Class_"+id, "a constant is filled by its own code")
			}
		}
		if toks[i].text == "c_"+id {
			j := 1
			for ; j < 12 && next(j) != "=" && next(j) != ";" && next(j) != ","; j++ {
			}
			if next(j) != "=" {
				continue
			}
			for j++; j < 20 && toks[i+j].kind == 'w' && next(j) == "new" || next(j) == "P" || next(j) == "p" || next(j) == "Vx" || next(j) == "Core" || next(j) == "vx_core" || next(j) == "." || next(j) == ":"; j++ {
			}
			if strings.HasPrefix(next(j), "Class_") {
				made++
				vxAssert(next(j) == "Class_"+id && lang == "cpp" || next(j) == "Class_"+c.typ, "a constant is of its type")
			}
		}
		if toks[i].text == "Const_"+id && toks[i-1].text == "class" && lang != "cpp" {
			j := i
			for toks[j].text != "constdef_new" {
				j++
			}
			vxAssert(toks[j+2].text == "p" && toks[j+4].text == c.name, "a constant has its name")
			for toks[j].text != ")" {
				j++
			}
			vxAssert(toks[j-1].text == "t_"+c.typ, "a constant has its type")
		}
	}
	vxAssert(made == 1 && filled == 1, "a constant is made and filled once")
}

// vxConstGives checks that a constant of C++ gives what it was filled with,
// where the values of its type give theirs.
func vxConstGives(toks []vxTok, c vxConstOf) {
	gives := map[string]string{"string": "vx_string vx_p_string", "int": "vx_int vx_p_int", "boolean": "vx_boolean vx_p_boolean",
		"float": "vx_float vx_p_float", "decimal": "vx_string vx_p_decimal"}
	for i := 0; i+12 < len(toks); i++ {
		if toks[i].text == "Class_"+vxConstId(c.name) && toks[i+3].text != "vx_const_new" && toks[i+6].text == "const" {
			vxAssert(toks[i+8].text == "return" && toks[i+3].text+" "+toks[i+12].text == gives[c.typ], "a constant gives what it holds")
		}
	}
}

// vxConstNames checks that every variable is declared before it is used.
func vxConstNames(body []vxTok) {
	declared := map[string]bool{"output": true, "constdef": true}
	for i := 1; i < len(body); i++ {
		t, prev := body[i], body[i-1]
		if t.kind != 'w' || t.text[0] < 'a' || t.text[0] > 'z' {
			continue
		}
		if prev.kind == 'p' && (prev.text == "." || prev.text == ":" || prev.text == ">") {
			if i > 1 && (prev.text != ":" || body[i-2].text == ":") && (prev.text != ">" || body[i-2].text == "-") {
				continue
			}
		}
		switch t.text {
		case "vx_core", "p", "var", "as", "long", "true", "false":
			continue
		}
		next := body[i+1]
		if prev.kind == 'w' && prev.text != "as" && next.kind == 'p' && (next.text == "=" || next.text == ":") {
			vxAssert(!declared[t.text], "a variable is declared once")
			declared[t.text] = true
			continue
		}
		vxAssert(declared[t.text], "a variable is declared before it is used")
	}
}

// vxConstSets are the assignments of values taken from a variable: what is set and taken.
func vxConstSets(body []vxTok) []string {
	var out []string
	for i := 1; i+4 < len(body); i++ {
		if body[i].kind != 'p' || body[i].text != "=" || !strings.HasPrefix(body[i-1].text, "vx_p_") || body[i-1].text == "vx_p_constdef" {
			continue
		}
		j := i + 2
		for body[j].kind == 'p' && (body[j].text == "." || body[j].text == "-" || body[j].text == ">") {
			j++
		}
		if body[j+1].text == "(" && body[j+2].text == ")" {
			out = append(out, body[i-1].text+"="+body[j].text)
		}
	}
	return out
}

// vxConstStruct chooses the declaration of the struct if one of the constants is one.
func vxConstStruct(consts []vxConstOf, decls ...string) string {
	for _, c := range consts {
		if c.typ == "t" {
			return vxPick("struct", decls...)
		}
	}
	return decls[0]
}

// Constants hold the values written for them.
func vhC39Const() {
	lang := vxGenLangs[vxChoice("lang", 5)]
	name := "ca"
	if vxParam("other") > 0 {
		name = "c-d"
	}
	consts := []vxConstOf{vxConstKind(vxChoice("kind", 9), name, vxParam("other") > 0)}
	if vxParam("other") > 0 {
		consts = append(consts, vxConstKind(vxChoice("other", 9), "cb", true))
		if vxBool("before") {
			consts[0], consts[1] = consts[1], consts[0]
		}
	}
	text := "(package p)\n(type sl : list :allowtypes [string])\n(type sm : map :allowtypes [string])\n(type il : list :allowtypes [int])\n" +
		vxConstStruct(consts, "(type t : struct :properties [pa : string p-b : string pc : string])\n",
			"(type u : struct :properties [pa : string p-b : string])\n(type t : struct :traits [u] :properties [pc : string])\n")
	for _, c := range consts {
		text += "(const " + c.name + " : " + c.typ + c.text + ")\n"
	}
	vxTrace(text)
	vxGenMore = vxGenNew + "(type boolean)\n(type float)\n(type decimal)\n"
	files := vxGenFiles(lang)
	toks := vxTokens(lang, vxGenerate(lang, text, len(files)-2))
	vxGenMore = ""
	for _, t := range toks {
		vxAssert(t.kind != 'e', "the code can be read")
	}
	for _, c := range consts {
		if lang == "js" {
			vxConstJs(toks, c)
			continue
		}
		vxConstMade(lang, toks, c)
		body := vxConstBody(lang, toks, vxConstId(c.name))
		vxConstNames(body)
		got := vxLiterals(body)
		if lang == "cpp" {
			vxAssert(len(got) > 1 && got[0] == "'p'" && got[1] == "'"+c.name+"'", "a constant has its name")
			got = got[2:]
			vxConstGives(toks, c)
			for i := range body {
				if strings.HasPrefix(body[i].text, "t_") {
					vxAssert(body[i].text == "t_"+c.typ, "a constant has its type")
					break
				}
			}
		}
		vxTrace(c.name + ": " + strings.Join(got, " ") + " expected " + strings.Join(c.made, " "))
		vxAssert(strings.Join(got, " ") == strings.Join(c.made, " "), "a constant has the value written")
		sets := strings.Join(vxConstSets(body), " ")
		want := ""
		if c.text != "" {
			switch c.typ {
			case "sl":
				want = "vx_p_list=vx_liststring"
			case "il":
				want = "vx_p_list=vx_listint"
			case "sm":
				want = "vx_p_map=vx_mapstring"
			case "t":
				want = "vx_p_pa=pa vx_p_p_b=p_b vx_p_pc=pc"
			}
		}
		vxTrace(sets)
		vxAssert(sets == want, "every part of the value is taken")
		if want != "" {
			made := 0
			for i := range body {
				if body[i].text == "f_new" {
					made++
					for body[i].kind != 'w' || !strings.HasPrefix(body[i].text, "t_") {
						i++
					}
					vxAssert(body[i].text == "t_"+c.typ, "the value is of the type of the constant")
				}
			}
			vxAssert(made == 1, "the value is made once")
		}
	}
	vxCover(lang)
}

// The same for JavaScript.
func vxConstJs(toks []vxTok, c vxConstOf) {
	starts, fills := 0, 0
	for i := 2; i < len(toks); i++ {
		if toks[i].kind != 'w' || toks[i].text != "c_"+vxConstId(c.name) {
			continue
		}
		if toks[i-1].text == "static" {
			starts++
			vxAssert(toks[i+1].text == "=", "a constant is set")
			switch c.typ {
			case "string", "int", "decimal":
				got := vxLiterals(toks[i : i+6])
				want := c.made[0]
				if c.typ == "decimal" && c.text != "" {
					want = want[1 : len(want)-1]
				} else if c.text == "" { // the default of the type, which has none here
					want = "''"
				}
				vxTrace(strings.Join(got, " ") + " expected " + want)
				vxAssert(len(got) > 0 && got[0] == want, "a constant has the value written")
			}
			continue
		}
		if toks[i-4].text != "assign" {
			continue
		}
		if c.text == "" { // the empty value of the type
			continue
		}
		fills++
		depth, j := 1, i
		for depth > 0 {
			j++
			if toks[j].kind == 'p' && toks[j].text == "(" {
				depth++
			} else if toks[j].kind == 'p' && toks[j].text == ")" {
				depth--
			}
		}
		got := vxLiterals(toks[i:j])
		vxTrace(strings.Join(got, " ") + " expected " + strings.Join(c.made, " "))
		vxAssert(len(got) > 0 && got[0] == "'any-1'" && strings.Join(got[1:], " ") == strings.Join(c.made, " "), "a constant has the value written")
	}
	want := 0
	switch c.typ {
	case "sl", "il", "sm", "t":
		if c.text != "" {
			want = 1
		}
	}
	vxAssert(starts == 1 && fills == want, "a constant is filled once")
}
