package vxlisp

import (
	"os"
)

// vxErrorMore are names and texts of more files of a project that is checked.
var vxErrorMore [][2]string

// vxErrorSub tells that the package is one of a project within the project.
var vxErrorSub bool

// vxProjectErrors writes a project of one package, reads it like the compiler
// does and returns whether it failed, and the report.
func vxProjectErrors(text string) (bool, string) {
	vxTrace(text)
	dir := vxTempDir()
	ok := os.MkdirAll(dir+"/main/vx", 0755) == nil && os.MkdirAll(dir+"/sub/vx", 0755) == nil
	of, sub, prj := "main/", "", ""
	if vxErrorSub {
		of, sub, prj = "sub/", "(package main)\n(func main : any)\n", " :projects \""+dir+"/sub\""
	}
	files := [][2]string{
		{"main/project.vxlisp", "(project demo :version \"1\"" + prj + ")"},
		{of + "vx/core.vxlisp", vxCore},
		{of + "vx/test.vxlisp", vxTestLib},
		{of + "p.vxlisp", text},
	}
	if vxErrorSub {
		files = append(files, [2]string{"sub/project.vxlisp", "(project part :version \"1\")"}, [2]string{"main/main.vxlisp", sub})
	}
	for _, f := range vxErrorMore {
		files = append(files, [2]string{of + f[0], f[1]})
	}
	for _, f := range files {
		ok = ok && os.WriteFile(dir+"/"+f[0], []byte(f[1]), 0644) == nil
	}
	vxAssert(ok, "the files are written")
	_, msg := ProjectReadFromPath(dir + "/main")
	os.RemoveAll(dir)
	return msg.iserror, StringFromMsgblock(msg)
}
