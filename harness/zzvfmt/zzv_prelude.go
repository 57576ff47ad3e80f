// Package zzvfmt models fmt, os files and standard output for the symbolic interpreter. It is never compiled natively.
package zzvfmt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"
	"unicode/utf8"
)

func vEmitStdout(b []byte)

type stringer interface{ String() string }

type wrapErr struct {
	msg string
	err error
}

func (w *wrapErr) Error() string { return w.msg }
func (w *wrapErr) Unwrap() error { return w.err }

type fmtErr struct{ msg string }

func (w *fmtErr) Error() string { return w.msg }

type spec struct {
	verb               byte
	width, prec        int
	hasW, hasP         bool
	zero, minus, sharp bool
	plus               bool
}

func pad(out []byte, s []byte, sp *spec) []byte {
	n := sp.width - len(s)
	if !sp.hasW || n <= 0 {
		return append(out, s...)
	}
	if sp.minus {
		out = append(out, s...)
		for i := 0; i < n; i++ {
			out = append(out, ' ')
		}
		return out
	}
	c := byte(' ')
	if sp.zero {
		c = '0'
	}
	for i := 0; i < n; i++ {
		out = append(out, c)
	}
	return append(out, s...)
}

func upper(b []byte) []byte {
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'f' || b[i] == 'x' {
			b[i] -= 32
		}
	}
	return b
}

func intStr(neg bool, i int64, u uint64, signed bool, sp *spec) []byte {
	base := 10
	switch sp.verb {
	case 'x', 'X':
		base = 16
	case 'b':
		base = 2
	case 'o':
		base = 8
	}
	if base == 16 && !signed && sp.zero && !sp.minus && !sp.sharp && sp.width > 0 && sp.width <= 8 && u>>uint(4*sp.width) == 0 {
		// fixed width: the digits themselves instead of a rendering of the number
		d := make([]byte, sp.width)
		for k := range d {
			d[k] = hexd[u>>uint(4*(sp.width-1-k))&15]
		}
		if sp.verb == 'X' {
			d = upper(d)
		}
		return d
	}
	var s []byte
	if sp.sharp && base == 16 {
		s = append(s, '0', 'x')
	}
	if signed {
		s = append(s, strconv.FormatInt(i, base)...)
	} else {
		s = append(s, strconv.FormatUint(u, base)...)
	}
	if sp.verb == 'X' {
		// a separate rendering; hexadecimal digits in upper case
		s = upper(s)
	}
	return s
}

const hexd = "0123456789abcdef"

func hexStr(b []byte, up bool) []byte {
	var o []byte
	for _, c := range b {
		o = append(o, hexd[c>>4], hexd[c&15])
	}
	if up {
		o = upper(o)
	}
	return o
}

func appendArg(out []byte, a interface{}, sp *spec, depth int) []byte {
	if a == nil {
		if sp.verb == 'v' {
			return pad(out, []byte("<nil>"), sp)
		}
		return append(out, "%!"+string(sp.verb)+"(<nil>)"...)
	}
	if sp.verb == 'T' {
		return pad(out, []byte(reflect.TypeOf(a).String()), sp)
	}
	if sp.verb == 'v' || sp.verb == 's' || sp.verb == 'q' || sp.verb == 'x' || sp.verb == 'X' {
		switch e := a.(type) {
		case error:
			return appendStr(out, e.Error(), sp)
		case stringer:
			return appendStr(out, e.String(), sp)
		}
	}
	switch v := a.(type) {
	case string:
		return appendStr(out, v, sp)
	case bool:
		if v {
			return pad(out, []byte("true"), sp)
		}
		return pad(out, []byte("false"), sp)
	case int:
		return appendInt(out, int64(v), 0, true, sp)
	case int8:
		return appendInt(out, int64(v), 0, true, sp)
	case int16:
		return appendInt(out, int64(v), 0, true, sp)
	case int32:
		return appendInt(out, int64(v), 0, true, sp)
	case int64:
		return appendInt(out, v, 0, true, sp)
	case uint:
		return appendInt(out, 0, uint64(v), false, sp)
	case uint8:
		return appendInt(out, 0, uint64(v), false, sp)
	case uint16:
		return appendInt(out, 0, uint64(v), false, sp)
	case uint32:
		return appendInt(out, 0, uint64(v), false, sp)
	case uint64:
		return appendInt(out, 0, v, false, sp)
	case uintptr:
		return appendInt(out, 0, uint64(v), false, sp)
	case float64:
		return appendFloat(out, v, 64, sp)
	case float32:
		return appendFloat(out, float64(v), 32, sp)
	case []byte:
		if sp.verb == 's' || sp.verb == 'q' || sp.verb == 'x' || sp.verb == 'X' {
			return appendStr(out, string(v), sp)
		}
	}
	return appendReflect(out, reflect.ValueOf(a), sp, depth)
}

func appendReflect(out []byte, v reflect.Value, sp *spec, depth int) []byte {
	switch v.Kind() {
	case reflect.Bool:
		return appendArg(out, v.Bool(), sp, depth)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return appendInt(out, v.Int(), 0, true, sp)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return appendInt(out, 0, v.Uint(), false, sp)
	case reflect.String:
		return appendStr(out, v.String(), sp)
	case reflect.Slice, reflect.Array:
		if (sp.verb == 's' || sp.verb == 'x' || sp.verb == 'X' || sp.verb == 'q') && v.Type().Elem().Kind() == reflect.Uint8 {
			var b []byte
			for i := 0; i < v.Len(); i++ {
				b = append(b, byte(v.Index(i).Uint()))
			}
			return appendStr(out, string(b), sp)
		}
		out = append(out, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				out = append(out, ' ')
			}
			out = appendArg(out, v.Index(i).Interface(), sp, depth+1)
		}
		return append(out, ']')
	case reflect.Ptr:
		if depth == 0 && v.Elem().Kind() == reflect.Struct {
			out = append(out, '&')
			return appendReflect(out, v.Elem(), sp, depth+1)
		}
	case reflect.Struct:
		out = append(out, '{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				out = append(out, ' ')
			}
			if sp.plus {
				out = append(out, v.Type().Field(i).Name...)
				out = append(out, ':')
			}
			out = appendReflect(out, v.Field(i), sp, depth+1)
		}
		return append(out, '}')
	}
	panic("zzvfmt: unsupported operand of a format verb")
}

func appendStr(out []byte, s string, sp *spec) []byte {
	switch sp.verb {
	case 'q':
		return pad(out, []byte(strconv.Quote(s)), sp)
	case 'x':
		return pad(out, hexStr([]byte(s), false), sp)
	case 'X':
		return pad(out, hexStr([]byte(s), true), sp)
	case 's', 'v':
		if sp.hasP && len(s) > sp.prec {
			s = s[:sp.prec]
		}
		return pad(out, []byte(s), sp)
	}
	out = append(out, '%', '!', sp.verb)
	out = append(out, "(string="...)
	out = append(out, s...)
	return append(out, ')')
}

func appendInt(out []byte, i int64, u uint64, signed bool, sp *spec) []byte {
	switch sp.verb {
	case 'v', 'd', 'x', 'X', 'b', 'o':
		return pad(out, intStr(false, i, u, signed, sp), sp)
	case 'c':
		if signed {
			return append(out, string(rune(i))...)
		}
		return append(out, string(rune(u))...)
	}
	out = append(out, '%', '!', sp.verb)
	out = append(out, "(int="...)
	out = append(out, strconv.FormatInt(i, 10)...)
	return append(out, ')')
}

func appendFloat(out []byte, f float64, bits int, sp *spec) []byte {
	c, p := byte('g'), -1
	switch sp.verb {
	case 'f', 'F':
		c, p = 'f', 6
	case 'e':
		c, p = 'e', 6
	}
	if sp.hasP {
		p = sp.prec
	}
	return pad(out, []byte(strconv.FormatFloat(f, c, p, bits)), sp)
}

func format(out []byte, f string, args []interface{}) ([]byte, error) {
	k := 0
	var wrapped error
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = append(out, f[i:j]...)
			i = j
			continue
		}
		i++
		var sp spec
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '0':
				sp.zero = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case '+':
				sp.plus = true
			case ' ':
			default:
				break flags
			}
		}
		if i < len(f) && f[i] == '*' {
			sp.hasW = true
			sp.width = args[k].(int)
			k++
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			sp.hasW = true
			sp.width = sp.width*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			sp.hasP = true
			i++
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				sp.prec = sp.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		sp.verb = f[i]
		i++
		if sp.verb == '%' {
			out = append(out, '%')
			continue
		}
		if k >= len(args) {
			out = append(out, '%', '!', sp.verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		if sp.verb == 'w' {
			if e, ok := args[k].(error); ok {
				wrapped = e
			}
			sp.verb = 'v'
		}
		if sp.verb == 't' {
			sp.verb = 'v'
		}
		if sp.verb == 'p' {
			panic("zzvfmt: %p")
		}
		out = appendArg(out, args[k], &sp, 0)
		k++
	}
	if k < len(args) {
		out = append(out, "%!(EXTRA "...)
		for ; k < len(args); k++ {
			out = appendArg(out, args[k], &spec{verb: 'v'}, 0)
		}
		out = append(out, ')')
	}
	return out, wrapped
}

func plain(out []byte, args []interface{}, ln bool) []byte {
	prevStr := true
	for i, a := range args {
		_, isStr := a.(string)
		if i > 0 && (ln || !isStr && !prevStr) {
			out = append(out, ' ')
		}
		out = appendArg(out, a, &spec{verb: 'v'}, 0)
		prevStr = isStr
	}
	if ln {
		out = append(out, '\n')
	}
	return out
}

func Sprintf(f string, args ...interface{}) string {
	b, _ := format(nil, f, args)
	return string(b)
}
func Appendf(b []byte, f string, args ...interface{}) []byte {
	b, _ = format(b, f, args)
	return b
}
func Sprint(args ...interface{}) string   { return string(plain(nil, args, false)) }
func Sprintln(args ...interface{}) string { return string(plain(nil, args, true)) }
func Errorf(f string, args ...interface{}) error {
	b, w := format(nil, f, args)
	if w != nil {
		return &wrapErr{string(b), w}
	}
	return &fmtErr{string(b)}
}
func Fprintf(w io.Writer, f string, args ...interface{}) (int, error) {
	b, _ := format(nil, f, args)
	return w.Write(b)
}
func Fprint(w io.Writer, args ...interface{}) (int, error)   { return w.Write(plain(nil, args, false)) }
func Fprintln(w io.Writer, args ...interface{}) (int, error) { return w.Write(plain(nil, args, true)) }
func Printf(f string, args ...interface{}) (int, error)      { return Fprintf(os.Stdout, f, args...) }
func Print(args ...interface{}) (int, error)                 { return Fprint(os.Stdout, args...) }
func Println(args ...interface{}) (int, error)               { return Fprintln(os.Stdout, args...) }

// ---- virtual files

type vnode struct{ data []byte }
type vfile struct {
	n      *vnode
	off    int64
	rd     bool
	wr     bool
	app    bool // appending
	full   bool // no space left
	closed bool
	name   string
}

var nodes = map[string]*vnode{}
var files = map[*os.File]*vfile{}

var dirs = map[string]bool{"/vfs": true}

var errIO = errors.New("input/output error")

// parent is the directory a path lies in.
func parent(name string) string {
	i := len(name) - 1
	for i > 0 && name[i] != '/' {
		i--
	}
	return name[:i]
}

func OsMkdirAll(name string, perm fs.FileMode) error {
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	if len(name) <= 1 || dirs[name] {
		return nil
	}
	if nodes[name] != nil {
		return &fs.PathError{Op: "mkdir", Path: name, Err: errIO}
	}
	if err := OsMkdirAll(parent(name), perm); err != nil {
		return err
	}
	dirs[name] = true
	return nil
}

func TermGetSize(fd int) (int, int, error) { return 0, 0, errIO }

func VfsPut(name string, data []byte) string {
	nodes["/vfs/"+name] = &vnode{append([]byte(nil), data...)}
	return "/vfs/" + name
}

func VfsPath(name string) string { return "/vfs/" + name }

func VfsGet(path string) ([]byte, bool) {
	n := nodes[path]
	if n == nil {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

func OsOpen(name string) (*os.File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }

func OsCreate(name string) (*os.File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OsOpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	fail := func(err error) (*os.File, error) { return nil, &fs.PathError{Op: "open", Path: name, Err: err} }
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	v := &vfile{name: name, rd: acc != os.O_WRONLY, wr: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}
	f := new(os.File)
	if name == "/dev/full" && v.wr {
		v.n, v.full = &vnode{}, true
		files[f] = v
		return f, nil
	}
	if dirs[name] {
		if v.wr || flag&os.O_CREATE != 0 {
			return fail(errIO)
		}
		files[f] = v
		return f, nil
	}
	n := nodes[name]
	if n != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return fail(fs.ErrExist)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 || !dirs[parent(name)] {
			return fail(fs.ErrNotExist)
		}
		n = &vnode{}
		nodes[name] = n
	}
	if flag&os.O_TRUNC != 0 && v.wr {
		n.data = nil
	}
	v.n = n
	files[f] = v
	return f, nil
}

func OsReadFile(name string) ([]byte, error) {
	n := nodes[name]
	if n == nil {
		if dirs[name] {
			return nil, &fs.PathError{Op: "read", Path: name, Err: errIO}
		}
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return append([]byte{}, n.data...), nil
}

func OsWriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	if err1 := FileClose(f); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func OsMkdir(name string, perm fs.FileMode) error {
	for len(name) > 1 && name[len(name)-1] == '/' {
		name = name[:len(name)-1]
	}
	if dirs[name] || nodes[name] != nil {
		return &fs.PathError{Op: "mkdir", Path: name, Err: fs.ErrExist}
	}
	if !dirs[parent(name)] {
		return &fs.PathError{Op: "mkdir", Path: name, Err: fs.ErrNotExist}
	}
	dirs[name] = true
	return nil
}

func OsRemove(name string) error {
	if nodes[name] == nil {
		return &fs.PathError{Op: "remove", Path: name, Err: fs.ErrNotExist}
	}
	delete(nodes, name)
	return nil
}

func OsRename(from, to string) error {
	if nodes[from] == nil || !dirs[parent(to)] {
		return &fs.PathError{Op: "rename", Path: from, Err: fs.ErrNotExist}
	}
	if dirs[to] {
		return &fs.PathError{Op: "rename", Path: from, Err: fs.ErrExist}
	}
	nodes[to] = nodes[from]
	delete(nodes, from)
	return nil
}

type vinfo struct {
	name string
	size int64
	dir  bool
}

func (i *vinfo) Name() string {
	for k := len(i.name) - 1; k >= 0; k-- {
		if i.name[k] == '/' {
			return i.name[k+1:]
		}
	}
	return i.name
}
func (i *vinfo) Size() int64 { return i.size }
func (i *vinfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0777
	}
	return 0666
}
func (i *vinfo) ModTime() (t time.Time) { return }
func (i *vinfo) IsDir() bool            { return i.dir }
func (i *vinfo) Sys() interface{}       { return nil }

func OsStat(name string) (fs.FileInfo, error) {
	if n := nodes[name]; n != nil {
		return &vinfo{name, int64(len(n.data)), false}, nil
	}
	if dirs[name] {
		return &vinfo{name, 4096, true}, nil
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
}

func FileStat(f *os.File) (fs.FileInfo, error) {
	v := files[f]
	if v == nil || v.closed {
		return nil, fs.ErrClosed
	}
	if v.n == nil {
		return &vinfo{v.name, 4096, true}, nil
	}
	return &vinfo{v.name, int64(len(v.n.data)), false}, nil
}

func FileName(f *os.File) string {
	if v := files[f]; v != nil {
		return v.name
	}
	return "/dev/stdout"
}

func FileSync(f *os.File) error {
	if v := files[f]; v == nil || v.closed {
		return fs.ErrClosed
	}
	return nil
}

func FileTruncate(f *os.File, size int64) error {
	v := files[f]
	if v == nil || v.closed || !v.wr || size < 0 {
		return fs.ErrInvalid
	}
	for int64(len(v.n.data)) < size {
		v.n.data = append(v.n.data, 0)
	}
	v.n.data = append([]byte(nil), v.n.data[:size]...)
	return nil
}

func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	v := files[f]
	if v == nil || v.closed {
		return 0, fs.ErrClosed
	}
	if off < 0 || v.n == nil || !v.rd {
		return 0, &fs.PathError{Op: "read", Path: v.name, Err: errIO}
	}
	if off >= int64(len(v.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, v.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	v := files[f]
	if v == nil || v.closed {
		return 0, fs.ErrClosed
	}
	if off < 0 || v.app {
		return 0, &fs.PathError{Op: "write", Path: v.name, Err: errIO}
	}
	p := v.off
	v.off = off
	n, err := FileWrite(f, b)
	v.off = p
	return n, err
}

// MathMax and MathMin follow math.Max and math.Min, which are in assembly.
func MathMax(x, y float64) float64 {
	switch {
	case x != x:
		return x
	case y != y:
		return y
	case x == 0 && y == 0:
		if 1/x < 0 {
			return y
		}
		return x
	case x > y:
		return x
	}
	return y
}

func MathMin(x, y float64) float64 {
	switch {
	case x != x:
		return x
	case y != y:
		return y
	case x == 0 && y == 0:
		if 1/x < 0 {
			return x
		}
		return y
	case x < y:
		return x
	}
	return y
}

func FileClose(f *os.File) error {
	v := files[f]
	if v == nil {
		return nil
	}
	if v.closed {
		return fs.ErrClosed
	}
	v.closed = true
	return nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	v := files[f]
	if v == nil || v.closed {
		return 0, fs.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if v.n == nil || !v.rd {
		return 0, &fs.PathError{Op: "read", Path: v.name, Err: errIO}
	}
	if v.off >= int64(len(v.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, v.n.data[v.off:])
	v.off += int64(n)
	return n, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	if f == os.Stdout {
		vEmitStdout(b)
		return len(b), nil
	}
	if f == os.Stderr {
		return len(b), nil
	}
	v := files[f]
	if v == nil || v.closed || !v.wr {
		return 0, fs.ErrClosed
	}
	if v.full && len(b) > 0 {
		return 0, &fs.PathError{Op: "write", Path: v.name, Err: errIO}
	}
	if v.app {
		v.off = int64(len(v.n.data))
	}
	for int64(len(v.n.data)) < v.off {
		v.n.data = append(v.n.data, 0)
	}
	k := copy(v.n.data[v.off:], b)
	v.n.data = append(v.n.data, b[k:]...)
	v.off += int64(len(b))
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	v := files[f]
	if v == nil || v.closed {
		return 0, fs.ErrClosed
	}
	if v.full {
		return 0, nil
	}
	switch whence {
	case 1:
		off += v.off
	case 2:
		if v.n == nil {
			off = 1<<63 - 1 // a directory
		} else {
			off += int64(len(v.n.data))
		}
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "seek", Path: v.name, Err: fs.ErrInvalid}
	}
	v.off = off
	return off, nil
}

func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	var t int64
	buf := make([]byte, 32*1024)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := FileWrite(f, buf[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	var t int64
	buf := make([]byte, 32*1024)
	for {
		n, err := FileRead(f, buf)
		if n > 0 {
			m, werr := w.Write(buf[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func StrconvAppendInt(b []byte, i int64, base int) []byte {
	return append(b, strconv.FormatInt(i, base)...)
}

func StrconvAppendUint(b []byte, i uint64, base int) []byte {
	return append(b, strconv.FormatUint(i, base)...)
}

func CompareString(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

// StrRunes is []rune(s).
func StrRunes(s string) []rune {
	var out []rune
	for _, r := range s {
		out = append(out, r)
	}
	return out
}

// RunesStr is string(r).
func RunesStr(r []rune) string {
	var out []byte
	for _, c := range r {
		out = utf8.AppendRune(out, c)
	}
	return string(out)
}

// ---------- sync.Map (its accesses are synchronised)

var syncMaps = map[*sync.Map]map[interface{}]interface{}{}

func syncMapOf(m *sync.Map) map[interface{}]interface{} {
	s := syncMaps[m]
	if s == nil {
		s = map[interface{}]interface{}{}
		syncMaps[m] = s
	}
	return s
}

func SyncMapLoad(m *sync.Map, key interface{}) (interface{}, bool) {
	v, ok := syncMaps[m][key]
	return v, ok
}

func SyncMapStore(m *sync.Map, key, value interface{}) { syncMapOf(m)[key] = value }

func SyncMapClear(m *sync.Map) { delete(syncMaps, m) }

func SyncMapLoadOrStore(m *sync.Map, key, value interface{}) (interface{}, bool) {
	s := syncMapOf(m)
	if v, ok := s[key]; ok {
		return v, true
	}
	s[key] = value
	return value, false
}

func SyncMapLoadAndDelete(m *sync.Map, key interface{}) (interface{}, bool) {
	s := syncMapOf(m)
	v, ok := s[key]
	delete(s, key)
	return v, ok
}

func SyncMapDelete(m *sync.Map, key interface{}) { delete(syncMapOf(m), key) }

func SyncMapSwap(m *sync.Map, key, value interface{}) (interface{}, bool) {
	s := syncMapOf(m)
	v, ok := s[key]
	s[key] = value
	return v, ok
}

func SyncMapCompareAndSwap(m *sync.Map, key, old, new interface{}) bool {
	s := syncMapOf(m)
	if v, ok := s[key]; !ok || v != old {
		return false
	}
	s[key] = new
	return true
}

func SyncMapCompareAndDelete(m *sync.Map, key, old interface{}) bool {
	s := syncMapOf(m)
	if v, ok := s[key]; !ok || v != old {
		return false
	}
	delete(s, key)
	return true
}

func SyncMapRange(m *sync.Map, f func(key, value interface{}) bool) {
	for k, v := range syncMaps[m] {
		if !f(k, v) {
			break
		}
	}
}
