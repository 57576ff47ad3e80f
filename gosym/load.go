package main

// Loading /repo (plus harness overlay) into SSA and running package initialisers.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/abema/go-mp4"

var repoDir = "/repo"
var verifDir = "/verif"

// harness directory name -> import path suffix ("" = root)
var harnessPkgs = []struct{ dir, path, name string }{
	{"mp4", "", "mp4"},
	{"bitio", "internal/bitio", "bitio"},
	{"util", "internal/util", "util"},
	{"dump", "cmd/mp4tool/internal/dump", "dump"},
	{"edit", "cmd/mp4tool/internal/edit", "edit"},
	{"extract", "cmd/mp4tool/internal/extract", "extract"},
	{"psshdump", "cmd/mp4tool/internal/psshdump", "psshdump"},
	{"probe", "cmd/mp4tool/internal/probe", "probe"},
	{"divide", "cmd/mp4tool/internal/divide", "divide"},
}

func pkgInfo(dir string) (path, name string) {
	for _, p := range harnessPkgs {
		if p.dir == dir {
			if p.path == "" {
				return modPath, p.name
			}
			return modPath + "/" + p.path, p.name
		}
	}
	panic("unknown harness package " + dir)
}

func goEnv(cgo bool) []string {
	var e []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "HOME", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "CGO_ENABLED", "GOSUMDB", "PWD":
			continue
		}
		e = append(e, kv)
	}
	c := "CGO_ENABLED=0"
	if cgo {
		c = "CGO_ENABLED=1"
	}
	return append(e, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", c, "GOSUMDB=off")
}

// harnessFiles returns overlay path -> content for one harness package. only: file name filter (nil = all).
func harnessFiles(dir string, files []string) map[string][]byte {
	path, name := pkgInfo(dir)
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	out := map[string][]byte{}
	put := func(src, base string) {
		b, err := os.ReadFile(src)
		if err != nil {
			panic(err)
		}
		s := strings.Replace(string(b), "package HARNESS", "package "+name, 1)
		out[filepath.Join(repoDir, rel, base)] = []byte(s)
	}
	put(filepath.Join(verifDir, "harness/rt/zzv_rt.go"), "zzv_rt.go")
	for _, f := range files {
		src := filepath.Join(verifDir, "harness", dir, f)
		if _, err := os.Stat(src); err != nil {
			src = filepath.Join(verifDir, "harness/common", f)
		}
		put(src, f)
	}
	return out
}

func preludeFiles() map[string][]byte {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness/zzvfmt/zzv_prelude.go"))
	if err != nil {
		panic(err)
	}
	return map[string][]byte{filepath.Join(repoDir, "internal/zzvfmt/zzv_prelude.go"): b}
}

type Program struct {
	prog    *ssa.Program
	byPath  map[string]*ssa.Package
	base    *Heap
	gName   map[uint32]string
	initFns map[*FnInfo]bool
	initMsg []string
}

var P *Program

// load type-checks and builds the packages with the harness overlay.
func load(overlay map[string][]byte, pkgPaths []string) error {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Env:     goEnv(false),
		Overlay: overlay,
	}
	patterns := append([]string{preludePath}, pkgPaths...)
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	var errs []string
	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		all = append(all, p)
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	fset := pkgs[0].Fset
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	P = &Program{prog: prog, byPath: map[string]*ssa.Package{}, gName: map[uint32]string{}, initFns: map[*FnInfo]bool{}}
	TT.prog = prog
	for _, p := range all {
		if p.Types != nil && !p.IllTyped || p.PkgPath == "unsafe" {
			sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			P.byPath[p.PkgPath] = sp
		} else {
			return fmt.Errorf("package %s did not type-check", p.PkgPath)
		}
	}
	prog.Build()
	tiByte = T(types.Typ[types.Byte])
	tiString = T(types.Typ[types.String])
	if rp := P.byPath["runtime"]; rp != nil {
		rtErrTI = T(rp.Pkg.Scope().Lookup("errorString").Type())
	}
	return P.initAll()
}

func buildPkg(p *ssa.Package) {}

func findFunc(pkgPath, name string) *FnInfo {
	p := P.byPath[pkgPath]
	if p == nil {
		unsup("package %s is not loaded", pkgPath)
	}
	f := p.Func(name)
	if f == nil {
		unsup("no function %s in %s", name, pkgPath)
	}
	return FI(f)
}

func findType(pkgPath, name string) types.Type {
	return P.byPath[pkgPath].Pkg.Scope().Lookup(name).Type()
}

func globalName(obj uint32) string {
	if n, ok := P.gName[obj]; ok {
		return n
	}
	if obj < P.base.next {
		return "package-level data"
	}
	return "storage that existed before the call"
}

// packages whose initialisers are executed by the interpreter
var initStd = map[string]bool{
	"errors": true, "io": true, "unicode": true, "unicode/utf8": true, "strconv": true, "internal/strconv": true, "bytes": true,
	"strings": true, "math": true, "math/bits": true, "sort": true, "encoding/binary": true, "encoding/base64": true,
	"encoding/hex": true, "bufio": true, "io/fs": true, "internal/oserror": true, "path": true, "flag": true, "slices": true,
	"internal/reflectlite": false, "unicode/utf16": true, "cmp": true, "internal/stringslite": true, "encoding": true,
	"math/rand": false, "encoding/json": true, "text/tabwriter": true, "internal/bisect": false,
}

// packages whose zero-valued variables are what the interpreter needs
var zeroOK = map[string]bool{
	"crypto/rand": true, "internal/cpu": true, "internal/bytealg": true, "internal/race": true, "internal/testlog": true, "sync": true, "sync/atomic": true,
	"internal/reflectlite": true, "internal/abi": true, "internal/goarch": true, "internal/byteorder": true, "internal/goos": true,
}

func initAllowed(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return true
	}
	switch path {
	case "github.com/sunfish-shogi/bufseekio", "github.com/orcaman/writerseeker", "github.com/google/uuid":
		return true
	}
	return initStd[path]
}

func (p *Program) initAll() error {
	x := NewExec()
	x.concreteMode = true
	x.allocCap = 1 << 24
	st := &State{h: &Heap{tk: &tok{}}, model: &Model{}}
	// all globals
	var pkgs []*ssa.Package
	for _, sp := range p.byPath {
		pkgs = append(pkgs, sp)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, sp := range pkgs {
		path := sp.Pkg.Path()
		var names []string
		for n, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := sp.Members[n].(*ssa.Global)
			e := T(g.Type()).Elem()
			id := st.h.alloc(e.slots, e)
			globalIDs[g] = id
			p.gName[id] = path + "." + n
			if n != "init$guard" && !initAllowed(path) && !zeroOK[path] {
				st.h.objW(id).tag = "uninit:" + path + "." + n
			}
		}
	}
	// standard streams
	if op := p.byPath["os"]; op != nil {
		ft := T(findType("os", "File"))
		for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
			g := op.Members[n].(*ssa.Global)
			id := globalIDs[g]
			o := st.h.alloc(ft.slots, ft)
			p.gName[o] = "os." + n
			st.h.objW(id).tag = ""
			st.h.store(id, 0, mkPtr(o, 0))
		}
		for _, n := range []string{"ErrNotExist", "ErrClosed", "ErrInvalid", "ErrExist", "ErrPermission", "Args"} {
			if g, ok := op.Members[n].(*ssa.Global); ok {
				st.h.objW(globalIDs[g]).tag = ""
			}
		}
	}
	if op := p.byPath["os"]; op != nil {
		if g, ok := op.Members["Args"].(*ssa.Global); ok {
			et := T(types.Typ[types.String])
			o := st.h.alloc(et.slots, et)
			st.h.store(o, 0, mkStr("mp4tool"))
			st.h.store(globalIDs[g], 0, Val{r: &SliceV{obj: o, len: 1, cap: 1}})
		}
	}
	done := map[*types.Package]bool{}
	var err error
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if done[tp] {
			return
		}
		done[tp] = true
		for _, i := range tp.Imports() {
			visit(i)
		}
		if !initAllowed(tp.Path()) {
			return
		}
		sp := p.byPath[tp.Path()]
		if sp == nil {
			return
		}
		if tp.Path() == "os" {
			return
		}
		f := FI(sp.Func("init"))
		st.dead = false
		st.frames = nil
		st.steps = 0
		x.paths = 0
		x.push(st, f, nil, nil, retNormal)
		x.explore(st)
		if x.paths != 1 || len(x.incompl) > 0 || len(x.cands) > 0 {
			var m []string
			for k := range x.incompl {
				m = append(m, k)
			}
			for _, c := range x.cands {
				m = append(m, c.Kind+" "+c.Msg+" "+c.Site)
			}
			if strings.HasPrefix(tp.Path(), modPath) || os.Getenv("GOSYM_INITDEBUG") != "" {
				err = fmt.Errorf("initialising %s failed: %s", tp.Path(), strings.Join(m, "; "))
			}
			p.initMsg = append(p.initMsg, tp.Path()+": "+strings.Join(m, "; "))
			x.incompl = map[string]int{}
			x.cands = nil
			x.candKey = map[string]bool{}
		}
	}
	for _, sp := range pkgs {
		visit(sp.Pkg)
	}
	if op := p.byPath["os"]; op != nil {
		// os re-exports these from io/fs
		if fp := p.byPath["io/fs"]; fp != nil {
			for _, n := range []string{"ErrNotExist", "ErrClosed", "ErrInvalid", "ErrExist", "ErrPermission"} {
				g1, ok1 := op.Members[n].(*ssa.Global)
				g2, ok2 := fp.Members[n].(*ssa.Global)
				if ok1 && ok2 {
					st.h.store(globalIDs[g1], 0, st.h.load(globalIDs[g2], 0))
				}
			}
		}
	}
	for f := range x.fns {
		p.initFns[f] = true
	}
	x.sol.Close()
	st.h.tk = &tok{}
	p.base = st.h
	return err
}

var forkMu sync.Mutex

// baseHeap gives a private copy-on-write view of the initialised heap.
func (p *Program) baseHeap() *Heap {
	c := *p.base
	c.tk = &tok{}
	return &c
}
