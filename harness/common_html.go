package vxlisp

import (
	"strings"
)

// vxHtmlText decodes the character references of a text.
func vxHtmlText(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '>' || s[i] == '<' {
			return "", false
		}
		if s[i] != '&' {
			out = append(out, s[i])
			continue
		}
		found := false
		for _, r := range [][2]string{{"&amp;", "&"}, {"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&#39;", "'"}, {"&#34;", "\""}, {"&apos;", "'"}} {
			if !found && strings.HasPrefix(s[i:], r[0]) {
				out = append(out, r[1][0])
				i += len(r[0]) - 1
				found = true
			}
		}
		if !found {
			return "", false
		}
	}
	return string(out), true
}

// vxHtml reads a page into tags 't', attributes 'a' and texts 'x'; scripts and styles are one text.
func vxHtml(s string) []vxTok {
	var out []vxTok
	raw := ""
	for i := 0; i < len(s); {
		if raw != "" {
			n := strings.Index(s[i:], "</"+raw)
			if n < 0 {
				return append(out, vxTok{'e', "open " + raw})
			}
			out = append(out, vxTok{'r', s[i : i+n]})
			i += n
			raw = ""
			continue
		}
		if s[i] != '<' {
			j := i
			for i < len(s) && s[i] != '<' {
				i++
			}
			text, ok := vxHtmlText(s[j:i])
			if !ok {
				return append(out, vxTok{'e', "text"})
			}
			out = append(out, vxTok{'x', text})
			continue
		}
		i++
		j := i
		for i < len(s) && (vxWordByte(s[i]) || s[i] == '/' || s[i] == '!') {
			i++
		}
		tag := s[j:i]
		if tag == "" {
			return append(out, vxTok{'e', "tag"})
		}
		out = append(out, vxTok{'t', tag})
		if tag == "script" || tag == "style" {
			raw = tag
		}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
				i++
			}
			if i >= len(s) {
				return append(out, vxTok{'e', "tag"})
			}
			if s[i] == '>' {
				i++
				break
			}
			if s[i] == '/' {
				i++
				continue
			}
			j := i
			for i < len(s) && (vxWordByte(s[i]) || s[i] == '-') {
				i++
			}
			name := s[j:i]
			if name == "" {
				return append(out, vxTok{'e', "attribute"})
			}
			out = append(out, vxTok{'a', name})
			if i+1 < len(s) && s[i] == '=' && s[i+1] == '"' {
				i += 2
				j := i
				for i < len(s) && s[i] != '"' {
					i++
				}
				text, ok := vxHtmlText(s[j:i])
				if !ok || i >= len(s) {
					return append(out, vxTok{'e', "attribute"})
				}
				i++
				out = append(out, vxTok{'v', text})
			}
		}
	}
	return out
}
