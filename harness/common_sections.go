package vxlisp

// vxMention is a word or string of generated code that has the name or type of a member.
type vxMention struct {
	member int
	text   string // with the name or type left out
}

// vxSections says whether mentions are sections, each of which has the same for every
// member in order, or is about the last one only.
func vxSections(ms []vxMention, n int, dead map[int]bool) bool {
	if len(ms) == 0 {
		return true
	}
	if dead[len(ms)] {
		return false
	}
	if ms[0].member == 0 {
		size := 0
		for size*n <= len(ms) && size < len(ms) && ms[size].member == 0 {
			size++
			if size*n > len(ms) {
				break
			}
			ok := true
			for i := 0; i < size*n && ok; i++ {
				ok = ms[i].member == i/size && ms[i].text == ms[i%size].text
			}
			if ok && vxSections(ms[size*n:], n, dead) {
				return true
			}
		}
	}
	if ms[0].member == n-1 && vxSections(ms[1:], n, dead) {
		return true
	}
	dead[len(ms)] = true
	return false
}
