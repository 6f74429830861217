package vxlisp

// vxCore is a small core package: the types and functions every program needs.
const vxCore = "(package vx/core)\n" +
	"(type any)\n(type int)\n(type t1)\n(type t2)\n(type t3)\n(type arg)\n(type arglist : list :allowtypes [arg])\n" +
	"(func any<-func : any-1)\n(func any<-any : any-1 [value : any-2])\n" +
	"(func k1 : any)\n(func k2 : any)\n(func k3 : any)\n" +
	"(func let : any-1 [args : arglist fn-any : any<-func])\n" +
	"(func fn : any-1 [parameters : arglist fn-any : any<-func])\n" +
	"(func g : any [a : any b : any])\n" +
	"(func h : any [f : any<-any])\n"

// vxFuncNamed is the function of that name in a package.
func vxFuncNamed(pkg *vxpackage, name string) *vxfunc {
	var out *vxfunc
	for _, f := range pkg.listfunc {
		if f.name == name {
			out = f
		}
	}
	vxAssert(out != nil, "the function is kept")
	return out
}

// vxTestLib is a small package of test functions.
const vxTestLib = "(package vx/test)\n(type testresult)\n(func test : testresult [expected : any actual : any])\n"

// vxStandard are the packages every program uses.
func vxStandard(core string) []*vxpackage {
	c, bad := vxPackage(core)
	c.listlib = nil
	t, bad2 := vxPackage(vxTestLib)
	vxAssert(!bad && !bad2, "the standard packages are accepted")
	return []*vxpackage{c, t}
}

// vxCompile links and validates packages and tells whether an error was found.
func vxCompile(list []*vxpackage) bool {
	list, msg := ListPackageLink(list)
	if msg.iserror {
		return true
	}
	_, msg = ListPackageValidate(list)
	return msg.iserror
}
