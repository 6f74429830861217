// Command zzverif replays recorded inputs of the checks against the real program.
package main

import "vxlisp/vxlisp"

func main() { vxlisp.VerifMain() }
