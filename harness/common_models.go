package vxlisp

// Models of library functions for the symbolic engine: a file system kept in memory, number
// parsing, error chains.  A replay runs the real library instead.

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

func vxParseInt(s string, base int, bits int) (int64, int) { panic("symbolic only") }
func vxParseFloat(s string, bits int) (float64, int)       { panic("symbolic only") }
func vxSwap(slice any, i int, j int)                       { panic("symbolic only") }
func vxLen(slice any) int                                  { panic("symbolic only") }

func vxmNumError(fn string, s string, kind int) error {
	switch kind {
	case 0:
		return nil
	case 2:
		return &strconv.NumError{Func: fn, Num: s, Err: strconv.ErrRange}
	}
	return &strconv.NumError{Func: fn, Num: s, Err: strconv.ErrSyntax}
}

func vxmParseInt(s string, base int, bits int) (int64, error) {
	n, kind := vxParseInt(s, base, bits)
	return n, vxmNumError("ParseInt", s, kind)
}

func vxmAtoi(s string) (int, error) {
	n, kind := vxParseInt(s, 10, 0)
	return int(n), vxmNumError("Atoi", s, kind)
}

func vxmParseFloat(s string, bits int) (float64, error) {
	f, kind := vxParseFloat(s, bits)
	return f, vxmNumError("ParseFloat", s, kind)
}

func vxmNumErrorString(e *strconv.NumError) string {
	return "strconv." + e.Func + ": parsing \"" + e.Num + "\": " + e.Err.Error()
}

func vxmErrorsIs(err error, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, sub := range x.Unwrap() {
				if vxmErrorsIs(sub, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

// vxmSortSlice is an insertion sort, which is what the library uses for short slices.
func vxmSortSlice(slice any, less func(i, j int) bool) {
	n := vxLen(slice)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vxSwap(slice, j, j-1)
		}
	}
}

// ---- files

type vxmNode struct {
	path string
	dir  bool
	link string
	text string
	mode fs.FileMode
	old  bool // not written since it was made old
}

type vxmHandle struct {
	file *os.File
	node *vxmNode
	pos  int
	shut bool
	wr   bool
	app  bool
}

type vxmBuffer struct {
	buf  *bufio.Writer
	w    io.Writer
	text string
}

var vxmNodes []*vxmNode
var vxmHandles []*vxmHandle
var vxmBuffers []*vxmBuffer
var vxmCwd = "/vxcwd"
var vxmLimit = -1 // most bytes a file can hold, if not negative

func vxmInit() {
	if len(vxmNodes) == 0 {
		for _, p := range []string{"/", "/vxtmp", "/vxcwd"} {
			vxmNodes = append(vxmNodes, &vxmNode{path: p, dir: true, mode: fs.ModeDir | 0755})
		}
	}
}

func vxmAbs(path string) string {
	if !filepath.IsAbs(path) {
		path = vxmCwd + "/" + path
	}
	return filepath.Clean(path)
}

func vxmFind(path string) *vxmNode {
	vxmInit()
	for _, n := range vxmNodes {
		if n.path == path {
			return n
		}
	}
	return nil
}

func vxmErr(op string, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

// vxmLookup finds a node, following links in the last component.
func vxmLookup(op string, path string, follow bool) (*vxmNode, error) {
	if path == "" {
		return nil, vxmErr(op, path, fs.ErrNotExist)
	}
	p := vxmAbs(path)
	for i := 0; i < 8; i++ {
		n := vxmFind(p)
		if n == nil {
			return nil, vxmErr(op, path, fs.ErrNotExist)
		}
		if n.link == "" || !follow {
			if !n.dir && len(path) > 1 && path[len(path)-1] == '/' {
				return nil, vxmErr(op, path, errors.New("not a directory"))
			}
			return n, nil
		}
		if filepath.IsAbs(n.link) {
			p = filepath.Clean(n.link)
		} else {
			p = filepath.Join(filepath.Dir(p), n.link)
		}
	}
	return nil, vxmErr(op, path, errors.New("too many levels of symbolic links"))
}

func vxmParent(op string, path string) error {
	n, err := vxmLookup(op, filepath.Dir(vxmAbs(path)), true)
	if err != nil {
		return vxmErr(op, path, fs.ErrNotExist)
	}
	if !n.dir {
		return vxmErr(op, path, errors.New("not a directory"))
	}
	return nil
}

type vxmInfo struct{ n *vxmNode }

func (i *vxmInfo) Name() string               { return filepath.Base(i.n.path) }
func (i *vxmInfo) Size() int64                { return int64(len(i.n.text)) }
func (i *vxmInfo) Mode() fs.FileMode          { return i.n.mode }
func (i *vxmInfo) ModTime() time.Time         { return time.Time{} }
func (i *vxmInfo) IsDir() bool                { return i.n.dir }
func (i *vxmInfo) Sys() any                   { return nil }
func (i *vxmInfo) Type() fs.FileMode          { return vxmModeType(i.n.mode) }
func (i *vxmInfo) Info() (fs.FileInfo, error) { return i, nil }

func vxmStat(path string) (fs.FileInfo, error) {
	n, err := vxmLookup("stat", path, true)
	if err != nil {
		return nil, err
	}
	return &vxmInfo{n}, nil
}

func vxmLstat(path string) (fs.FileInfo, error) {
	n, err := vxmLookup("lstat", path, false)
	if err != nil {
		return nil, err
	}
	return &vxmInfo{n}, nil
}

func vxmIsExist(err error) bool    { return vxmErrorsIs(err, fs.ErrExist) }
func vxmIsNotExist(err error) bool { return vxmErrorsIs(err, fs.ErrNotExist) }

func vxmOpenFile(path string, flag int, perm fs.FileMode) (*os.File, error) {
	n, err := vxmLookup("open", path, true)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if err != nil {
		if flag&os.O_CREATE == 0 || path == "" || path[len(path)-1] == '/' {
			return nil, err
		}
		if err := vxmParent("open", path); err != nil {
			return nil, err
		}
		n = &vxmNode{path: vxmAbs(path), mode: perm}
		vxmNodes = append(vxmNodes, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, vxmErr("open", path, fs.ErrExist)
		}
		if n.dir && wr {
			return nil, vxmErr("open", path, errors.New("is a directory"))
		}
		if flag&os.O_TRUNC != 0 {
			n.text = ""
			n.old = false
		}
	}
	f := new(os.File)
	vxmHandles = append(vxmHandles, &vxmHandle{file: f, node: n, wr: wr, app: flag&os.O_APPEND != 0})
	return f, nil
}

func vxmCreate(path string) (*os.File, error) {
	return vxmOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
}

func vxmOpen(path string) (*os.File, error) { return vxmOpenFile(path, os.O_RDONLY, 0) }

func vxmHandleOf(f *os.File) *vxmHandle {
	for _, h := range vxmHandles {
		if h.file == f {
			return h
		}
	}
	return nil
}

func vxmReadFile(path string) ([]byte, error) {
	n, err := vxmLookup("open", path, true)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, vxmErr("read", path, errors.New("is a directory"))
	}
	return []byte(n.text), nil
}

func vxmWriteFile(path string, data []byte, perm fs.FileMode) error {
	f, err := vxmOpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = vxmFileWrite(f, data)
	err1 := vxmFileClose(f)
	if err == nil {
		err = err1
	}
	return err
}

func vxmFileWriteString(f *os.File, text string) (int, error) {
	h := vxmHandleOf(f)
	if h == nil {
		return len(text), nil // the console
	}
	if h.shut || !h.wr {
		return 0, vxmErr("write", h.node.path, fs.ErrInvalid)
	}
	if h.app {
		h.pos = len(h.node.text)
	}
	var full error
	want := len(text)
	if vxmLimit >= 0 && h.pos+len(text) > vxmLimit {
		full = vxmErr("write", h.node.path, errors.New("file too large"))
		text = text[:max(0, vxmLimit-h.pos)]
	}
	if want > 0 {
		h.node.old = false
	}
	old := h.node.text
	rest := ""
	if h.pos+len(text) < len(old) {
		rest = old[h.pos+len(text):]
	}
	h.node.text = old[:h.pos] + text + rest
	h.pos += len(text)
	return len(text), full
}

func vxmFileWrite(f *os.File, data []byte) (int, error) { return vxmFileWriteString(f, string(data)) }

func vxmFileClose(f *os.File) error {
	h := vxmHandleOf(f)
	if h != nil {
		if h.shut {
			return vxmErr("close", h.node.path, fs.ErrInvalid)
		}
		h.shut = true
	}
	return nil
}

func vxmFileSync(f *os.File) error { return nil }

func vxmFileChmod(f *os.File, mode fs.FileMode) error {
	h := vxmHandleOf(f)
	if h != nil {
		h.node.mode = vxmModeType(h.node.mode) | vxmModePerm(mode)
	}
	return nil
}

func vxmFileRest(f *os.File) (string, error) {
	h := vxmHandleOf(f)
	if h == nil || h.shut || h.node.dir {
		return "", vxmErr("read", "", fs.ErrInvalid)
	}
	text := h.node.text[h.pos:]
	h.pos = len(h.node.text)
	return text, nil
}

func vxmWrite(w io.Writer, text string) (int, error) {
	switch x := w.(type) {
	case *os.File:
		return vxmFileWriteString(x, text)
	case *bufio.Writer:
		return vxmWriterWriteString(x, text)
	}
	return w.Write([]byte(text))
}

func vxmCopy(w io.Writer, r io.Reader) (int64, error) {
	data, err := vxmIoReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := vxmWrite(w, string(data))
	return int64(n), err
}

func vxmIoWriteString(w io.Writer, text string) (int, error) { return vxmWrite(w, text) }

func vxmIoReadAll(r io.Reader) ([]byte, error) {
	if f, ok := r.(*os.File); ok {
		text, err := vxmFileRest(f)
		return []byte(text), err
	}
	text := ""
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		text += string(buf[:n])
		if err == io.EOF {
			return []byte(text), nil
		} else if err != nil {
			return []byte(text), err
		}
	}
}

func vxmFprint(w io.Writer, a ...any) (int, error)   { return vxmWrite(w, fmt.Sprint(a...)) }
func vxmFprintln(w io.Writer, a ...any) (int, error) { return vxmWrite(w, fmt.Sprintln(a...)) }
func vxmFprintf(w io.Writer, format string, a ...any) (int, error) {
	return vxmWrite(w, fmt.Sprintf(format, a...))
}

func vxmMkdir(path string, perm fs.FileMode) error {
	if path == "" {
		return vxmErr("mkdir", path, fs.ErrNotExist)
	}
	p := vxmAbs(path)
	if vxmFind(p) != nil {
		return vxmErr("mkdir", path, fs.ErrExist)
	}
	if err := vxmParent("mkdir", path); err != nil {
		return err
	}
	vxmNodes = append(vxmNodes, &vxmNode{path: p, dir: true, mode: fs.ModeDir | vxmModePerm(perm)})
	return nil
}

func vxmMkdirAll(path string, perm fs.FileMode) error {
	if path == "" {
		return vxmErr("mkdir", path, fs.ErrNotExist)
	}
	p := vxmAbs(path)
	n, err := vxmLookup("mkdir", p, true)
	if err == nil {
		if n.dir {
			return nil
		}
		return vxmErr("mkdir", path, errors.New("not a directory"))
	}
	if err := vxmMkdirAll(filepath.Dir(p), perm); err != nil {
		return err
	}
	return vxmMkdir(p, perm)
}

func vxmInside(dir string, p string) bool {
	if dir == "/" {
		return p != "/"
	}
	return len(p) > len(dir) && p[:len(dir)] == dir && p[len(dir)] == '/'
}

func vxmRemove(path string) error {
	p := vxmAbs(path)
	if vxmFind(p) == nil {
		return vxmErr("remove", path, fs.ErrNotExist)
	}
	var rest []*vxmNode
	for _, n := range vxmNodes {
		if vxmInside(p, n.path) {
			return vxmErr("remove", path, errors.New("directory not empty"))
		}
		if n.path != p {
			rest = append(rest, n)
		}
	}
	vxmNodes = rest
	return nil
}

func vxmRemoveAll(path string) error {
	p := vxmAbs(path)
	var rest []*vxmNode
	for _, n := range vxmNodes {
		if n.path != p && !vxmInside(p, n.path) {
			rest = append(rest, n)
		}
	}
	vxmNodes = rest
	return nil
}

func vxmRename(from string, to string) error {
	p, q := vxmAbs(from), vxmAbs(to)
	n := vxmFind(p)
	if n == nil {
		return vxmErr("rename", from, fs.ErrNotExist)
	}
	if err := vxmParent("rename", to); err != nil {
		return err
	}
	if n.dir {
		return vxmErr("rename", from, errors.New("directory renames are not modelled"))
	}
	if o := vxmFind(q); o != nil {
		if o.dir {
			return vxmErr("rename", to, fs.ErrExist)
		}
		if o != n {
			vxmRemove(q)
		}
	}
	n.path = q
	return nil
}

func vxmSymlink(link string, path string) error {
	p := vxmAbs(path)
	if vxmFind(p) != nil {
		return vxmErr("symlink", path, fs.ErrExist)
	}
	if err := vxmParent("symlink", path); err != nil {
		return err
	}
	vxmNodes = append(vxmNodes, &vxmNode{path: p, link: link, mode: fs.ModeSymlink | 0777})
	return nil
}

func vxmReadlink(path string) (string, error) {
	n, err := vxmLookup("readlink", path, false)
	if err != nil {
		return "", err
	}
	if n.link == "" {
		return "", vxmErr("readlink", path, fs.ErrInvalid)
	}
	return n.link, nil
}

func vxmGetwd() (string, error) { return vxmCwd, nil }

func vxmChdir(path string) error {
	n, err := vxmLookup("chdir", path, true)
	if err != nil {
		return err
	}
	if !n.dir {
		return vxmErr("chdir", path, errors.New("not a directory"))
	}
	vxmCwd = n.path
	return nil
}

// vxMakeOld gives a file an early time of its last change; vxIsOld tells whether it still has it.
func vxMakeOld(path string) {
	if vxSymbolic() {
		n, _ := vxmLookup("chtimes", path, true)
		n.old = true
		return
	}
	t := time.Unix(1000000, 0)
	os.Chtimes(path, t, t)
}

func vxIsOld(path string) bool {
	if vxSymbolic() {
		n, _ := vxmLookup("stat", path, true)
		return n != nil && n.old
	}
	info, err := os.Stat(path)
	return err == nil && info.ModTime().Unix() == 1000000
}

// vxmChildren gives the nodes of a directory in the order of their names.
func vxmChildren(dir string) []*vxmNode {
	var out []*vxmNode
	for _, n := range vxmNodes {
		if n.path != "/" && filepath.Dir(n.path) == dir {
			i := len(out)
			out = append(out, n)
			for i > 0 && out[i].path < out[i-1].path {
				out[i], out[i-1] = out[i-1], out[i]
				i--
			}
		}
	}
	return out
}

func vxmReadDir(path string) ([]fs.DirEntry, error) {
	n, err := vxmLookup("open", path, true)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, vxmErr("readdirent", path, errors.New("not a directory"))
	}
	var out []fs.DirEntry
	for _, c := range vxmChildren(n.path) {
		out = append(out, &vxmInfo{c})
	}
	return out, nil
}

func vxmWalk(root string, fn filepath.WalkFunc) error {
	n, err := vxmLookup("lstat", root, false)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = vxmWalkNode(root, n, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func vxmWalkNode(path string, n *vxmNode, fn filepath.WalkFunc) error {
	err := fn(path, &vxmInfo{n}, nil)
	if err != nil || !n.dir {
		if err == fs.SkipDir && n.dir {
			return nil
		}
		return err
	}
	for _, c := range vxmChildren(n.path) {
		err := vxmWalkNode(filepath.Join(path, filepath.Base(c.path)), c, fn)
		if err == fs.SkipDir {
			return nil
		} else if err != nil {
			return err
		}
	}
	return nil
}

func vxmWalkDir(root string, fn fs.WalkDirFunc) error {
	return vxmWalk(root, func(path string, info fs.FileInfo, err error) error {
		if info == nil {
			return fn(path, nil, err)
		}
		return fn(path, info.(*vxmInfo), err)
	})
}

func vxmPathErrorString(e *fs.PathError) string { return e.Op + " " + e.Path + ": " + e.Err.Error() }

func vxmPathErrorUnwrap(e *fs.PathError) error { return e.Err }

func vxmModeIsDir(m fs.FileMode) bool       { return m&fs.ModeDir != 0 }
func vxmModeIsRegular(m fs.FileMode) bool   { return m&fs.ModeType == 0 }
func vxmModeType(m fs.FileMode) fs.FileMode { return m & fs.ModeType }
func vxmModePerm(m fs.FileMode) fs.FileMode { return m & fs.ModePerm }

func vxmNewWriter(w io.Writer) *bufio.Writer {
	b := &vxmBuffer{buf: new(bufio.Writer), w: w}
	vxmBuffers = append(vxmBuffers, b)
	return b.buf
}

func vxmBufferOf(w *bufio.Writer) *vxmBuffer {
	for _, b := range vxmBuffers {
		if b.buf == w {
			return b
		}
	}
	panic("write through a buffer without a target")
}

func vxmWriterWriteString(w *bufio.Writer, text string) (int, error) {
	b := vxmBufferOf(w)
	b.text += text
	return len(text), nil
}

func vxmWriterWrite(w *bufio.Writer, data []byte) (int, error) {
	return vxmWriterWriteString(w, string(data))
}

func vxmWriterFlush(w *bufio.Writer) error {
	b := vxmBufferOf(w)
	text := b.text
	b.text = ""
	_, err := vxmWrite(b.w, text)
	return err
}
