package vxlisp

func init() {
	vxHarness["vhC02Any"] = vhC02Any
	vxHarness["vhC02Inside"] = vhC02Inside
	vxHarness["vhC02Deep"] = vhC02Deep
}

func vxIsWs(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func vxIsClose(c byte) bool { return c == ')' || c == ']' || c == '}' }

// vxClassify tells from the characters alone whether text is well formed:
// 0 well formed, 1 unbalanced, 2 neither is claimed.
func vxClassify(s string) int {
	stack := []byte{}
	n := len(s)
	i := 0
	sep := true // the previous character allows an item to start
	for i < n {
		c := s[i]
		if vxIsWs(c) {
			sep = true
			i++
			continue
		}
		if len(stack) == 0 {
			if vxIsClose(c) {
				return 1
			}
			if c == '/' && i+1 < n && s[i+1] == '*' {
				j := i + 2
				for j+1 < n && !(s[j] == '*' && s[j+1] == '/') {
					j++
				}
				if j+1 >= n {
					return 1
				}
				i = j + 2
				continue
			}
			if c != '(' {
				return 2
			}
			stack = append(stack, ')')
			sep = true
			i++
			continue
		}
		if vxIsClose(c) {
			if stack[len(stack)-1] != c {
				return 1
			}
			stack = stack[:len(stack)-1]
			sep = len(stack) == 0
			i++
			continue
		}
		switch c {
		case '"', '`':
			if !sep {
				return 2
			}
			j := i + 1
			for j < n && s[j] != c {
				if c == '"' && s[j] == '\\' {
					if j+1 < n && s[j+1] == '\\' {
						return 2
					}
					if j+1 < n && s[j+1] == '"' {
						j++
					}
				}
				j++
			}
			if j >= n {
				return 1
			}
			i = j + 1
			sep = false
			continue
		case '(', '[', '{':
			if !sep {
				return 2
			}
			if c == '(' && i > 0 && (s[i-1] == '\n' || s[i-1] == '\r') {
				return 2
			}
			k := byte(')')
			if c == '[' {
				k = ']'
			} else if c == '{' {
				k = '}'
			}
			stack = append(stack, k)
			sep = true
			i++
			continue
		}
		// a word or a comment
		if !sep {
			return 2
		}
		if c == '/' && i+1 < n && s[i+1] == '/' {
			for i < n && s[i] != '\n' && s[i] != '\r' {
				i++
			}
			continue
		}
		if c == '/' && i+1 < n && s[i+1] == '*' {
			j := i + 2
			for j+1 < n && !(s[j] == '*' && s[j+1] == '/') {
				j++
			}
			if j+1 >= n {
				return 1
			}
			i = j + 2
			sep = false
			continue
		}
		for i < n && !vxIsWs(s[i]) && !vxIsClose(s[i]) {
			c := s[i]
			if c == '"' || c == '`' || c == '(' || c == '[' || c == '{' {
				return 2
			}
			if c == '/' && i+1 < n && s[i+1] == '*' {
				return 2
			}
			i++
		}
		sep = false
	}
	if len(stack) > 0 {
		return 1
	}
	return 0
}

func vhC02Check(s string) {
	_, msg := vxRead(s)
	cls := vxClassify(s)
	vxTrace(s)
	switch cls {
	case 0:
		vxCover("well formed")
		vxAssert(!msg.iserror, "well-formed text gives no error")
	case 1:
		vxCover("unbalanced")
		vxAssert(msg.iserror, "unbalanced text gives an error")
	}
	vxObserve("msg", StringFromMsgblock(msg))
}

const vxSyntax = "() []{}\"`/*\\\n\ra"

func vhC02Any() {
	n := vxChoice("length", vxParam("n")+1)
	vhC02Check(vxStrIn("text$", n, vxSyntax))
}

func vhC02Inside() {
	pre := vxPick("before", "(a ", "(a [b ", "(f \"x", "(f `x", "(f /* x", "(f // x", "/* x", "(f {\"a\" ", "(a (b c) ")
	post := vxPick("after", ")", "", "])", "\")", "`)", "*/)", "\n)", "})")
	vhC02Check(pre + vxStrIn("text$", vxParam("n"), vxSyntax) + post)
}

// Longer sequences of brackets and words.
func vhC02Deep() {
	var stack []byte
	text := "(a"
	stack = append(stack, ')')
	broken := false
	for n := vxParam("n"); n > 0; n-- {
		c := vxByteIn("bracket", "([{)]}")
		text += " " + string([]byte{c})
		switch c {
		case '(':
			stack = append(stack, ')')
		case '[':
			stack = append(stack, ']')
		case '{':
			stack = append(stack, '}')
		default:
			vxAssume(broken || len(stack) > 1) // one group at the top
			if len(stack) == 0 || stack[len(stack)-1] != c {
				broken = true
			} else {
				stack = stack[:len(stack)-1]
			}
		}
	}
	if vxBool("close") {
		for len(stack) > 0 {
			text += string(stack[len(stack)-1:])
			stack = stack[:len(stack)-1]
		}
	}
	text += "\n"
	vxTrace(text)
	_, msg := vxRead(text)
	vxAssert(msg.iserror == (broken || len(stack) > 0), "exactly brackets that do not match are an error")
	if msg.iserror {
		vxCover("error")
	} else {
		vxCover("accepted")
	}
}
