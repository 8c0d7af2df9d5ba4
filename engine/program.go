package main

// Loading of /repo's current source (plus the harness overlay) into SSA.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Program struct {
	fset       *token.FileSet
	prog       *ssa.Program
	main       *ssa.Package
	byPath     map[string]*ssa.Package
	runtimeErr types.Type
	errorsNew  types.Type
	mu         sync.Mutex
	intrCache  sync.Map
	replCache  sync.Map
	mcache     sync.Map
	repo       string
	modPath    string
}

type intrinsicFn func(e *Exec, g *Gor, fn *ssa.Function, args []Value) Value

// Mode says how the repository's sources are presented.
type Mode struct {
	Yields string // "" none; otherwise comma list of files to instrument, "*" all; "-x.go" excludes
	Shims  bool   // sync/net/os imports replaced by the shims
}

// Overlay builds the file overlay for a mode: path -> content.
func buildOverlay(repo, hdir string, files []string, m Mode, native bool) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(hdir, f))
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, "zz_verif_"+f)] = b
	}
	shims, _ := filepath.Glob(filepath.Join(hdir, "shim", "*", "*.go"))
	for _, s := range shims {
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		pk := filepath.Base(filepath.Dir(s))
		ov[filepath.Join(repo, pk, filepath.Base(s))] = b
	}
	if m.Shims || m.Yields != "" {
		src, _ := filepath.Glob(filepath.Join(repo, "*.go"))
		sort.Strings(src)
		for _, s := range src {
			if strings.HasSuffix(s, "_test.go") {
				continue
			}
			b, err := os.ReadFile(s)
			if err != nil {
				return nil, err
			}
			nb, err := instrument(filepath.Base(s), b, m)
			if err != nil {
				return nil, err
			}
			ov[s] = nb
		}
	}
	return ov, nil
}

func writeOverlay(dir string, ov map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	for k, v := range ov {
		p := filepath.Join(dir, fmt.Sprintf("ov%d_%s", i, filepath.Base(k)))
		i++
		if err := os.WriteFile(p, v, 0o644); err != nil {
			return "", err
		}
		rep[k] = p
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, j, 0o644)
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	return env
}

// stripBodies lists packages whose function bodies are never executed by the
// engine (they are intrinsics or unreachable); dropping them speeds up loading.
func keepBodies(path string) bool {
	switch path {
	case "errors", "io", "bytes", "encoding/binary", "strings", "math/bits", "slices", "cmp", "sort", "unicode/utf8", "strconv", "maps", "context", "container/list", "sync/atomic", "bufio", "hash/crc32", "math", "iter", "container/ring", "container/heap", "path", "encoding/hex", "time", "internal/bytealg", "internal/byteorder", "internal/saferio", "internal/stringslite", "internal/strconv", "internal/itoa", "internal/abi", "unicode", "hash/fnv", "hash/adler32", "hash", "encoding/base64", "math/rand":
		return true
	}
	return false
}

func LoadProgram(repo string, ov map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	goroot := ""
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Fset:    fset,
		Overlay: ov,
		ParseFile: func(fs *token.FileSet, fn string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fs, fn, src, parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(fn, repo+string(filepath.Separator)) {
				i := strings.LastIndex(filepath.Dir(fn), "/src/")
				if i >= 0 {
					goroot = fn[:i]
					if !keepBodies(filepath.Dir(fn)[i+5:]) {
						for _, d := range f.Decls {
							if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name != "init" {
								fd.Body = nil
							} else if ok {
								fd.Body = &ast.BlockStmt{Lbrace: fd.Pos(), Rbrace: fd.Pos()}
							}
						}
					}
				}
			}
			return f, err
		},
	}
	_ = goroot
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	if len(pkgs[0].Errors) > 0 {
		var b bytes.Buffer
		for _, e := range pkgs[0].Errors {
			fmt.Fprintln(&b, e)
		}
		return nil, fmt.Errorf("package does not load: %s", b.String())
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	P := &Program{fset: fset, prog: prog, byPath: map[string]*ssa.Package{}, repo: repo, modPath: pkgs[0].PkgPath}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.PkgPath == "unsafe" {
			prog.CreatePackage(types.Unsafe, nil, nil, true)
			return
		}
		if p.Types == nil || p.TypesInfo == nil {
			return
		}
		if P.byPath[p.PkgPath] != nil {
			return
		}
		P.byPath[p.PkgPath] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
	})
	P.main = P.byPath[pkgs[0].PkgPath]
	if P.main == nil {
		return nil, fmt.Errorf("main package missing")
	}
	if rt := P.byPath["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("Error"); o != nil {
			_ = o
		}
	}
	tn := types.NewTypeName(token.NoPos, P.main.Pkg, "zzRuntimeError", nil)
	P.runtimeErr = types.NewNamed(tn, types.Typ[types.String], nil)
	P.main.Build()
	return P, nil
}

func (p *Program) build(pkg *ssa.Package) { pkg.Build() }

func (p *Program) buildFn(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
		return
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if fn.Blocks == nil {
		if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
			if sp := p.byPath[obj.Pkg().Path()]; sp != nil {
				sp.Build()
			}
		}
	}
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m *types.Func
	}
	k := key{t, m}
	if v, ok := p.mcache.Load(k); ok {
		return v.(*ssa.Function)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fn := p.prog.MethodValue(sel)
	if fn != nil {
		p.mcache.Store(k, fn)
	}
	return fn
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.String()
	if i := strings.IndexByte(s, '['); i > 0 && strings.HasSuffix(s, "]") {
		s = s[:i]
	}
	return s
}

type fnEntry struct{ f intrinsicFn }

func (p *Program) intrinsic(fn *ssa.Function) intrinsicFn {
	if v, ok := p.intrCache.Load(fn); ok {
		return v.(fnEntry).f
	}
	n := fnName(fn)
	f := intrinsics[n]
	if f == nil && fn.Pkg != nil {
		if fn.Pkg == p.main && strings.HasPrefix(fn.Name(), "zz") {
			f = intrinsics["zz:"+fn.Name()]
		}
		if f == nil {
			path := fn.Pkg.Pkg.Path()
			if path == "fmt" {
				f = fmtIntrinsic(fn)
			}
		}
	}
	p.intrCache.Store(fn, fnEntry{f})
	return f
}

type replEntry struct {
	fn *ssa.Function
	ok bool
}

// replaced maps library functions to models written in Go in the harness.
func (p *Program) replaced(fn *ssa.Function) (*ssa.Function, bool) {
	if v, ok := p.replCache.Load(fn); ok {
		r := v.(replEntry)
		return r.fn, r.ok
	}
	var r replEntry
	if m, ok := replacements[fnName(fn)]; ok {
		if t := p.main.Func(m); t != nil {
			r = replEntry{t, true}
		}
	}
	p.replCache.Store(fn, r)
	return r.fn, r.ok
}

var replacements = map[string]string{
	"encoding/json.Marshal":            "zzModelJSONMarshal",
	"encoding/json.Unmarshal":          "zzModelJSONUnmarshal",
	"encoding/json.NewEncoder":         "zzModelJSONNewEncoder",
	"(*encoding/json.Encoder).Encode":  "zzModelJSONEncode",
	"encoding/json.NewDecoder":         "zzModelJSONNewDecoder",
	"(*encoding/json.Decoder).Decode":  "zzModelJSONDecode",
	"encoding/gob.NewEncoder":          "zzModelGobNewEncoder",
	"(*encoding/gob.Encoder).Encode":   "zzModelGobEncode",
	"encoding/gob.NewDecoder":          "zzModelGobNewDecoder",
	"(*encoding/gob.Decoder).Decode":   "zzModelGobDecode",
	"bytes.Equal":                      "zzModelBytesEqual",
	"internal/bytealg.Compare":         "zzModelCompare",
	"internal/bytealg.CompareString":   "zzModelCompareString",
	"bytes.Compare":                    "zzModelCompare",
	"strings.Compare":                  "zzModelCompareString",
	"internal/bytealg.Count":           "zzModelCount",
	"internal/bytealg.CountString":     "zzModelCountString",
	"internal/bytealg.IndexByte":       "zzModelIndexByte",
	"internal/bytealg.IndexByteString": "zzModelIndexByteString",
	"internal/bytealg.Index":           "zzModelIndex",
	"internal/bytealg.IndexString":     "zzModelIndexString",
	"bytes.Index":                      "zzModelIndex",
	"strings.Index":                    "zzModelIndexString",
	"(*sync.Pool).Get":                 "zzModelPoolGet",
	"strconv.Itoa":                     "zzModelItoa",
	"strconv.FormatInt":                "zzModelFormatInt",
	"strconv.FormatUint":               "zzModelFormatUint",
	"sort.Slice":                       "zzModelSortSlice",
	"sort.SliceStable":                 "zzModelSortSlice",
	"errors.As":                        "zzModelErrorsAs",
	"unicode/utf8.DecodeRuneInString":  "zzModelDecodeRuneInString",
	"unicode/utf8.DecodeRune":          "zzModelDecodeRune",
	"unicode/utf8.ValidString":         "zzModelValidString",
	"unicode/utf8.Valid":               "zzModelValid",
	"unicode/utf8.RuneCountInString":   "zzModelRuneCountInString",
	"unicode/utf8.RuneCount":           "zzModelRuneCount",
	"unicode.IsSpace":                  "zzModelIsSpace",
	"errors.Is":                        "zzModelErrorsIs",
}

func (p *Program) typeOf(pkg, name string) types.Type {
	sp := p.byPath[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}
