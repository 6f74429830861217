package main

import "math"

func floor(f float64) float64 { return math.Floor(f) }

type VFS struct{}

func newVFS() *VFS { return &VFS{} }
