package HARNESS

// Harness runtime. The symbolic interpreter replaces every v* function below by its own model; the bodies here
// are what a native replay of one concrete input runs.

import (
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"unsafe"
)

type vStopT struct{ why string }
type vFailT struct{ msg string }

type vRun struct {
	in     map[string]uint64
	params map[string]string
	ctr    map[string]int
	obs    []string
	covers []string
	alloc0 uint64
	limit  uint64
	out    *os.File
	oldOut *os.File
	dir    string
}

var vcur = &vRun{in: map[string]uint64{}, ctr: map[string]int{}}

func vname(base string) string {
	k := vcur.ctr[base]
	vcur.ctr[base] = k + 1
	return base + "#" + strconv.Itoa(k)
}

func vU8(name string) uint8   { return uint8(vcur.in[vname(name)]) }
func vI8(name string) int8    { return int8(vcur.in[vname(name)]) }
func vU16(name string) uint16 { return uint16(vcur.in[vname(name)]) }
func vI16(name string) int16  { return int16(vcur.in[vname(name)]) }
func vU32(name string) uint32 { return uint32(vcur.in[vname(name)]) }
func vI32(name string) int32  { return int32(vcur.in[vname(name)]) }
func vU64(name string) uint64 { return vcur.in[vname(name)] }
func vI64(name string) int64  { return int64(vcur.in[vname(name)]) }
func vInt(name string) int    { return int(vcur.in[vname(name)]) }
func vUint(name string) uint  { return uint(vcur.in[vname(name)]) }
func vBool(name string) bool  { return vcur.in[vname(name)]&1 != 0 }

// vBits is an arbitrary n-bit number (n constant, 1..64).
func vBits(name string, n int) uint64 {
	v := vcur.in[vname(name)]
	if n < 64 {
		v &= 1<<uint(n) - 1
	}
	return v
}

// vBytes is an arbitrary byte slice of length n.
func vBytes(name string, n int) []byte {
	nm := vname(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vcur.in[nm+"["+strconv.Itoa(i)+"]"])
	}
	return b
}

// vChoose is explored for every value 0..n-1 (concrete in each branch).
func vChoose(name string, n int) int {
	v := vcur.in[vname(name)]
	if v >= uint64(n) {
		panic(vStopT{"choose"})
	}
	return int(v)
}

// vRange is an arbitrary int in [lo,hi].
func vRange(name string, lo, hi int) int {
	v := int(vcur.in[vname(name)])
	if v < lo || v > hi {
		panic(vStopT{"range"})
	}
	return v
}

func vConc(v int) int { return v }
func vAssume(c bool) {
	if !c {
		panic(vStopT{"assume"})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		panic(vFailT{msg})
	}
}
func vCover(l string) {
	for _, c := range vcur.covers {
		if c == l {
			return
		}
	}
	vcur.covers = append(vcur.covers, l)
}
func vPrune(why string) { panic(vStopT{"prune"}) }
func vStopPath()        { panic(vStopT{"stop"}) }
func vObsU(l string, v uint64) {
	vcur.obs = append(vcur.obs, fmt.Sprintf("%s=%d", l, v))
}
func vObsBool(l string, v bool) {
	n := 0
	if v {
		n = 1
	}
	vcur.obs = append(vcur.obs, fmt.Sprintf("%s=%d", l, n))
}
func vObsB(l string, b []byte) { vcur.obs = append(vcur.obs, fmt.Sprintf("%s=%x", l, b)) }
func vObsS(l string, s string) { vcur.obs = append(vcur.obs, fmt.Sprintf("%s=%x", l, s)) }
func vObsErr(l string, err error) {
	s := "nil"
	if err != nil {
		s = "err"
	}
	vcur.obs = append(vcur.obs, l+"="+s)
}

func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vNot(a bool) bool    { return !a }
func vIte(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func vBytesEq(a, b []byte) bool { return string(a) == string(b) }
func vStrEq(a, b string) bool   { return a == b }

// vEqual is deep equality that does not distinguish nil and empty slices.
func vEqual(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	return va.Type() == vb.Type() && vdeq(va, vb)
}

func vopen(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanInterface() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func vdeq(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return vdeq(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vdeq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !vdeq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !vdeq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return a.Elem().Type() == b.Elem().Type() && vdeq(a.Elem(), b.Elem())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Map, reflect.Func, reflect.Chan:
		return a.Pointer() == b.Pointer()
	}
	return false
}

// vClone is a deep copy.
func vClone(a interface{}) interface{} {
	if a == nil {
		return nil
	}
	v := reflect.ValueOf(a)
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	vcopy(n, map[uintptr]reflect.Value{})
	return n.Interface()
}

func vcopy(v reflect.Value, seen map[uintptr]reflect.Value) {
	v = vopen(v)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if c, ok := seen[v.Pointer()]; ok && c.Type() == v.Type() {
			v.Set(c)
			return
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(v.Elem())
		seen[v.Pointer()] = n
		vcopy(n.Elem(), seen)
		v.Set(n)
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		reflect.Copy(n, v)
		for i := 0; i < n.Len(); i++ {
			vcopy(n.Index(i), seen)
		}
		v.Set(n)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vcopy(v.Index(i), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vcopy(v.Field(i), seen)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		n := reflect.New(e.Type()).Elem()
		n.Set(e)
		vcopy(n, seen)
		v.Set(n)
	}
}

type vspan struct{ lo, hi uintptr }

func vspans(v reflect.Value, out *[]vspan, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		if s := v.Type().Elem().Size(); s > 0 {
			*out = append(*out, vspan{v.Pointer(), v.Pointer() + s})
		}
		vspans(v.Elem(), out, seen)
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		if s := v.Type().Elem().Size() * uintptr(v.Cap()); s > 0 {
			*out = append(*out, vspan{v.Pointer(), v.Pointer() + s})
		}
		for i := 0; i < v.Len(); i++ {
			vspans(v.Index(i), out, seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vspans(v.Index(i), out, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			vspans(v.Field(i), out, seen)
		}
	case reflect.Interface:
		if !v.IsNil() {
			vspans(v.Elem(), out, seen)
		}
	}
}

// vNoAlias: no mutable storage is reachable from both arguments.
func vNoAlias(a, b interface{}) bool {
	var sa, sb []vspan
	vspans(reflect.ValueOf(a), &sa, map[uintptr]bool{})
	vspans(reflect.ValueOf(b), &sb, map[uintptr]bool{})
	for _, x := range sa {
		for _, y := range sb {
			if x.lo < y.hi && y.lo < x.hi {
				return false
			}
		}
	}
	return true
}

func vLimitAlloc(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	vcur.alloc0 = m.TotalAlloc
	vcur.limit = uint64(n)
}

func vUnlimitAlloc() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if vcur.limit != 0 && m.TotalAlloc-vcur.alloc0 > vcur.limit {
		panic(vFailT{fmt.Sprintf("allocated %d bytes, more than the permitted %d", m.TotalAlloc-vcur.alloc0, vcur.limit)})
	}
	vcur.limit = 0
}

func vFreezeShared() {}
func vFreezeAll()    {}
func vThaw()         {}

// vPar: f must not write to anything that exists when it is called, so that it may run concurrently with itself.
// f starts from its captured variables only. A replay in race mode runs it concurrently under the race detector.
func vPar(f func()) {
	vFreezeAll()
	if vNative() && os.Getenv("VERIF_RACE") != "" {
		vConcurrently(f)
	} else {
		f()
	}
	vThaw()
}

func vConcurrently(f func()) {
	const n = 4
	for round := 0; round < 25; round++ {
		start := make(chan bool)
		res := make(chan interface{}, n)
		for i := 0; i < n; i++ {
			go func() {
				defer func() { res <- recover() }()
				<-start
				f()
			}()
		}
		close(start)
		var bad interface{}
		for i := 0; i < n; i++ {
			if e := <-res; e != nil {
				bad = e
			}
		}
		if bad != nil {
			panic(bad)
		}
	}
}

func vParam(name string) string { return vcur.params[name] }
func vParamInt(name string) int {
	n, _ := strconv.Atoi(vcur.params[name])
	return n
}
func vNative() bool              { return true }
func vDebug(a ...interface{})    {}
func vEmitStdout(b []byte)       {}

// vCaptureStdout starts capturing standard output; vStdout returns what was written.
func vCaptureStdout() {
	if vcur.out == nil {
		f, err := ioutil.TempFile(vcur.dir, "stdout")
		if err != nil {
			panic(err)
		}
		vcur.out = f
		vcur.oldOut = os.Stdout
		os.Stdout = f
	}
}

func vStdout() []byte {
	b, err := ioutil.ReadFile(vcur.out.Name())
	if err != nil {
		panic(err)
	}
	return b
}

// vPutFile creates an input file and returns its path; vPath names an output file.
func vPutFile(name string, data []byte) string {
	p := vPath(name)
	if err := ioutil.WriteFile(p, data, 0600); err != nil {
		panic(err)
	}
	return p
}

func vPath(name string) string {
	if vcur.dir == "" {
		panic("no scratch directory")
	}
	return vcur.dir + "/" + name
}

func vGetFile(path string) ([]byte, bool) {
	b, err := ioutil.ReadFile(path)
	return b, err == nil
}
