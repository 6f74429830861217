package vxlisp

import (
	"os"
	"os/signal"
	"syscall"
)

func init() {
	vxHarness["vhC19Write"] = vhC19Write
	vxHarness["vhC19Copy"] = vhC19Copy
}

// vxFileLimit makes writing a file beyond n bytes fail.
func vxFileLimit(n int) {
	if vxSymbolic() {
		vxmLimit = n
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) == nil {
		lim.Cur = uint64(n)
		if n < 0 {
			lim.Cur = lim.Max
		}
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	}
}

// Writing files over every earlier state of their places.
func vhC19Write() {
	dir := vxTempDir()
	n := 1 + vxChoice("files", vxParam("files"))
	var files []*vxfile
	var same, fails []bool
	limit := -1
	if vxBool("limited") {
		limit = 2
	}
	for i := 0; i < n; i++ {
		f := NewFile()
		f.name = "f" + vxDumpInt(i)
		folder := vxPick("folder", "", "/a", "/a/b")
		f.path = dir + folder
		f.text = vxStrIn("text", vxChoice("len", vxParam("len")+1), "ab\n")
		place := dir + folder + "/" + f.name
		before := vxChoice("before", 5)
		isfail := limit >= 0 && len(f.text) > limit
		issame := false
		switch before {
		case 0:
		case 1:
			if folder != "" {
				vxAssert(os.MkdirAll(f.path, 0755) == nil, "the folder is made")
			}
		case 2:
			// some other file
			old := vxStrIn("old", vxChoice("oldlen", vxParam("len")+1), "ab\n")
			vxAssert(os.MkdirAll(f.path, 0755) == nil, "the folder is made")
			vxAssert(os.WriteFile(place, []byte(old), 0644) == nil, "the file is made")
			vxMakeOld(place)
			if old == f.text {
				issame, isfail = true, false
			}
		case 3:
			// a folder in the place of the file
			vxAssert(os.MkdirAll(place, 0755) == nil, "the folder is made")
			isfail = true
		default:
			// a file in the place of the folder
			vxAssume(folder == "/a" && n == 1)
			vxAssert(os.WriteFile(dir+"/a", []byte("x"), 0644) == nil, "the file is made")
			isfail = true
		}
		files = append(files, f)
		same, fails = append(same, issame), append(fails, isfail)
	}
	vxFileLimit(limit)
	msg := WriteListFile(files)
	vxFileLimit(-1)
	anyfail := false
	for i, f := range files {
		anyfail = anyfail || fails[i]
		if fails[i] {
			continue
		}
		b, err := os.ReadFile(f.path + "/" + f.name)
		vxAssert(err == nil && string(b) == f.text, "the file holds the text")
		if same[i] {
			vxAssert(vxIsOld(f.path+"/"+f.name), "an equal file is left untouched")
			vxCover("same")
		} else {
			vxCover("written")
		}
	}
	vxAssert(msg.iserror == anyfail, "exactly a failed write is an error")
	if anyfail {
		vxCover("failed")
	}
}

// Copying a folder over every earlier state of the target.
func vhC19Copy() {
	dir := vxTempDir()
	src, dst := dir+"/src", dir+"/dst"
	vxAssert(os.MkdirAll(src+"/d/e", 0755) == nil, "the folder is made")
	var names, texts []string
	for _, name := range []string{"/f", "/d/g", "/d/e/h"} {
		if vxBool("file") {
			text := vxStrIn("text", vxChoice("len", vxParam("len")+1), "ab\n")
			names, texts = append(names, name), append(texts, text)
			vxAssert(os.WriteFile(src+name, []byte(text), 0644) == nil, "the file is made")
		}
	}
	kept := false
	fails := false
	if vxBool("target") {
		vxAssert(os.MkdirAll(dst+"/d", 0755) == nil, "the folder is made")
		switch vxChoice("before", 4) {
		case 0:
			vxAssert(os.WriteFile(dst+"/d/g", []byte("abab"), 0644) == nil, "the file is made")
		case 1:
			vxAssert(os.WriteFile(dst+"/k", []byte("kk"), 0644) == nil, "the file is made")
			kept = true
		case 2:
			vxAssert(os.Mkdir(dst+"/f", 0755) == nil, "the folder is made")
			fails = len(names) > 0 && names[0] == "/f"
		default:
			vxAssert(os.WriteFile(dst+"/d/e", []byte("kk"), 0644) == nil, "the file is made")
			fails = len(names) > 0 && names[len(names)-1] == "/d/e/h"
			vxAssume(fails)
		}
	}
	msg := FolderCopyFromSourceTarget(src, dst)
	vxAssert(msg.iserror == fails, "exactly a failed copy is an error")
	if fails {
		vxCover("failed")
		return
	}
	for i, name := range names {
		b, err := os.ReadFile(dst + name)
		vxAssert(err == nil && string(b) == texts[i], "the copy holds the text")
		b, err = os.ReadFile(src + name)
		vxAssert(err == nil && string(b) == texts[i], "the original is unchanged")
	}
	if kept {
		b, err := os.ReadFile(dst + "/k")
		vxAssert(err == nil && string(b) == "kk", "other files are left alone")
	}
	vxCover("copied")
}
