package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the loaded program and the explored task graphs.
type Engine struct {
	repo    string
	fset    *token.FileSet
	pkgs    []*packages.Package
	prog    *ssa.Program
	ssapkgs map[string]*ssa.Package
	modPath string

	cache    map[string]*Graph
	Graphs   []*Graph
	restarts int
	steps    int

	stIfaces  []*types.Named
	stMethods map[*ssa.Function]bool
	openSign  bool // look into the signature package
	noOpaque  map[*ssa.Function]bool
	repoFns   map[*ssa.Function]bool
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	path := os.Getenv("PATH")
	for _, e := range env {
		switch strings.SplitN(e, "=", 2)[0] {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED":
		default:
			out = append(out, e)
		}
	}
	return append(out, "PATH=/opt/veriftools/go1.23.12/bin:"+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

func Load(repo string) (*Engine, error) {
	e := &Engine{repo: repo, cache: map[string]*Graph{}, ssapkgs: map[string]*ssa.Package{}, stMethods: map[*ssa.Function]bool{}, noOpaque: map[*ssa.Function]bool{}, repoFns: map[*ssa.Function]bool{}}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if ov := rangeIntOverlay(pkgs); len(ov) > 0 {
		cfg.Overlay = ov
		if again, err := packages.Load(cfg, "./..."); err == nil {
			clean := true
			for _, p := range again {
				clean = clean && len(p.Errors) == 0
			}
			if clean {
				pkgs = again
			}
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, p := range pkgs {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, er)
		}
		if p.Module != nil {
			e.modPath = p.Module.Path
		}
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages under %s", repo)
	}
	e.pkgs = pkgs
	e.fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for i, sp := range spkgs {
		if sp != nil {
			e.ssapkgs[pkgs[i].PkgPath] = sp
		}
	}
	// storage interfaces
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if it, ok := nt.Underlying().(*types.Interface); ok && storageShaped(it) {
				e.stIfaces = append(e.stIfaces, nt)
			}
		}
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			for _, it := range e.stIfaces {
				iface := it.Underlying().(*types.Interface)
				for _, t := range []types.Type{nt, types.NewPointer(nt)} {
					if !types.Implements(t, iface) {
						continue
					}
					for i := 0; i < iface.NumMethods(); i++ {
						if m := e.method(t, iface.Method(i)); m != nil {
							e.stMethods[m] = true
						}
					}
				}
			}
		}
	}
	return e, nil
}

func storageShaped(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Name() != "Get" {
			continue
		}
		s := m.Type().(*types.Signature)
		if s.Params().Len() == 2 && types.TypeString(s.Params().At(0).Type(), nil) == "context.Context" && isStringType(s.Params().At(1).Type()) {
			return true
		}
	}
	return false
}

func (e *Engine) pos(p token.Pos) string {
	if p == 0 {
		return "?"
	}
	q := e.fset.Position(p)
	f, err := filepath.Rel(e.repo, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (e *Engine) isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == e.modPath || strings.HasPrefix(p.Path(), e.modPath+"/"))
}

func (e *Engine) isRepo(fn *ssa.Function) bool {
	if p := fnPkg(fn); p != nil {
		return e.isRepoPkg(p)
	}
	// synthetic wrappers (method values, promoted methods) around repo methods
	return fn.Synthetic != "" && len(fn.Blocks) > 0
}

// --- function summaries --------------------------------------------------------

// Repo functions that are pure functions of their arguments and are analysed on
// their own; callers see them as an uninterpreted pure function.
var opaqueNames = []string{
	"sunlight.AppendTileLeaf", "sunlight.ReadTileLeaf", "sunlight.LogEntry).MerkleTreeLeaf", "sunlight.MarshalExtensions", "sunlight.ParseExtensions",
	"sunlight.DigitallySign", "sunlight.Path", "sunlight.KAnonHashPath", "sunlight.NewRFC6962Verifier", "sunlight.ParseCheckpoint",
}

func (e *Engine) opaque(fn *ssa.Function) bool {
	if e.noOpaque[fn] {
		return false
	}
	n := fnFullName(fn)
	for _, o := range opaqueNames {
		if strings.HasSuffix(n, o) {
			return true
		}
	}
	return !e.openSign && strings.Contains(n, "internal/rfc6979.")
}

func isOpaqueName(n string) bool {
	for _, o := range opaqueNames {
		if strings.HasSuffix(n, o) {
			return true
		}
	}
	return strings.Contains(n, "internal/rfc6979.")
}

var purePrefixes = []string{
	"crypto/sha256.Sum", "crypto/x509.Marshal", "encoding/base64.", "(*encoding/base64.Encoding).EncodeToString", "(*encoding/base64.Encoding).DecodeString", "encoding/hex.EncodeToString", "encoding/hex.DecodeString",
	"strings.", "bytes.Compare", "bytes.Equal", "bytes.HasPrefix", "bytes.NewReader", "bytes.Index", "bytes.Contains", "strconv.", "errors.", "fmt.Sprint", "fmt.Errorf", "path.", "path/filepath.Join", "path/filepath.Dir", "path/filepath.Base", "path/filepath.Clean",
	"math.", "math/bits.", "unicode.", "unicode/utf8.", "time.Parse", "(time.Time).", "(time.Duration).", "time.Unix", "(net/url.Values).Get", "(*net/url.URL).Query", "net/http.StatusText",
	"golang.org/x/mod/sumdb/tlog.", "(golang.org/x/mod/sumdb/tlog.", "encoding/json.Marshal", "encoding/json.Unmarshal", "encoding/json.Valid",
	"github.com/google/certificate-transparency-go.", "github.com/google/certificate-transparency-go/tls.Marshal", "github.com/google/certificate-transparency-go/x509.", "(*github.com/google/certificate-transparency-go/x509.Certificate).",
	"github.com/google/certificate-transparency-go/trillian/ctfe.", "encoding/pem.Decode", "(*net/http.Request).Context", "slices.", "cmp.", "(*crypto/ecdsa.PrivateKey).Public", "crypto/ecdsa.Verify", "crypto/rsa.Verify",
	"crypto/subtle.", "os.IsNotExist", "os.Getenv", "(*os.File).Name", "net/http.CanonicalHeaderKey", "(encoding/binary.", "(error).Error",
}
var impureNames = map[string]bool{
	"slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "strings.NewReader": false,
	"golang.org/x/mod/sumdb/tlog.ProveRecord": true, "golang.org/x/mod/sumdb/tlog.ProveTree": true, "golang.org/x/mod/sumdb/tlog.StoredHashesForRecordHash": true,
	"golang.org/x/mod/sumdb/tlog.TreeHash": true, "golang.org/x/mod/sumdb/tlog.ReadTileData": true, "(golang.org/x/mod/sumdb/tlog.HashReader).ReadHashes": true,
}

func (e *Engine) pure(name string) bool {
	if v, ok := impureNames[name]; ok {
		return !v
	}
	if isOpaqueName(name) {
		return true
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Engine) noCallback(name string) bool {
	for _, p := range []string{"fmt.", "log.", "(*log.", "errors.", "go.opentelemetry.io/", "net/http.", "(*net/http.ServeMux)", "(net/http.", "encoding/json.", "context.", "golang.org/x/mod/sumdb/tlog.TileHashReader", "github.com/fastly/compute-sdk-go/fsthttp.Serve", "math/rand."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return isOpaqueName(name)
}

// readonly: the callee does not write through its pointer arguments.
func (e *Engine) readonly(name string) bool {
	if isOpaqueName(name) {
		return true
	}
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Print", "fmt.Fprint", "log.", "errors.Is", "errors.New", "errors.Join", "encoding/json.Marshal", "crypto/", "(*crypto/ecdsa", "strings.", "bytes.", "strconv.", "(time.", "golang.org/x/mod/sumdb/tlog.", "github.com/google/certificate-transparency-go.", "github.com/google/certificate-transparency-go/tls.Marshal", "github.com/google/certificate-transparency-go/trillian/ctfe.", "github.com/google/certificate-transparency-go/x509.", "net/http.", "go.opentelemetry.io/", "(*net/http.ServeMux)", "context.", "os.WriteFile", "os.MkdirAll", "maps.", "path/", "encoding/pem.", "encoding/hex.EncodeToString", "(*encoding/base64.Encoding)", "golang.org/x/mod/sumdb/note.", "(*github.com/hashicorp/consul/api", "github.com/hashicorp/consul/api", "(*os.File).Write", "(*os.File).Close", "(*os.File).Sync", "(*os.File).Name", "(*os.File).Chmod", "(*github.com/aws", "(*golang.org/x/sync/errgroup.Group).", "os/signal.", "io.ReadAll", "(*net/http.Client).Do", "(net/http.Header)", "(*github.com/fastly/compute-sdk-go/fsthttp.Request).Send", "github.com/fastly/compute-sdk-go/cache/simple.GetOrSet", "(*net/url", "(net/url"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// writesSlices: the callee may write into slices it is given.
func (e *Engine) writesSlices(name string) bool {
	for _, p := range []string{"io.ReadFull", "io.ReadAtLeast", "(io.Reader)", "sort.", "slices.Sort", "slices.Reverse", "math/rand.", "crypto/rand.", "(*bufio.", "(*bytes.", "(*os.File).Read", "(io.ReadCloser)", "dynamic", "encoding/hex.", "(*encoding/base64.Encoding).Encode", "(*encoding/base64.Encoding).Decode", "encoding/binary."} {
		if strings.HasPrefix(name, p) && !strings.HasSuffix(name, "ToString") && !strings.HasSuffix(name, "DecodeString") {
			return true
		}
	}
	return !e.pure(name) && !e.readonly(name) && !strings.HasPrefix(name, "(*golang.org/x/crypto/cryptobyte")
}

func (e *Engine) quietCall(name string) bool { return false }

// --- type queries ----------------------------------------------------------------

func (e *Engine) isStorageIface(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return e.isStorageIface(types.Unalias(a))
		}
		return false
	}
	for _, s := range e.stIfaces {
		if s == n {
			return true
		}
	}
	return false
}

func (e *Engine) isStorageMethod(fn *ssa.Function) bool { return e.stMethods[fn] }

func (e *Engine) insideStorageImpl(ctx *Ctx) bool {
	for c := ctx; c != nil; c = c.parent {
		if e.stMethods[c.fn] {
			return true
		}
		if c.parent == nil {
			for f := c.fn.Parent(); f != nil; f = f.Parent() {
				if e.stMethods[f] {
					return true
				}
			}
		}
	}
	return false
}

// method resolves m on receiver type t to the declared method (not a wrapper)
// when the receiver is passed unchanged, and to the wrapper otherwise.
func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		sel = e.prog.MethodSets.MethodSet(t).Lookup(nil, m.Name())
	}
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// closuresIn finds the repo code an external callee could call back: function
// values reachable from the arguments and methods of repo types behind
// interfaces.
func (e *Engine) closuresIn(st *State, args []*Sym) []callback {
	var out []callback
	seen := map[*Sym]bool{}
	addedT := map[string]bool{}
	var walk func(x *Sym, d int)
	walk = func(x *Sym, d int) {
		if x == nil || seen[x] || d > 14 {
			return
		}
		seen[x] = true
		switch x.op {
		case OpClosure:
			if e.isRepo(x.fn) && len(x.fn.Blocks) > 0 {
				out = append(out, callback{fn: x.fn, binds: x.args})
				return
			}
			if strings.HasPrefix(x.fn.Synthetic, "bound method") {
				for _, a := range x.args {
					walk(a, d+1)
				}
			}
			return
		case OpFunc:
			if x.fn != nil && e.isRepo(x.fn) && len(x.fn.Blocks) > 0 {
				out = append(out, callback{fn: x.fn})
			}
			return
		case OpIface:
			t := x.typ
			nt, _ := derefT(t).(*types.Named)
			if nt == nil {
				nt, _ = t.(*types.Named)
			}
			if nt != nil && e.isRepoPkg(nt.Obj().Pkg()) {
				k := fmt.Sprint(I.tkey(t), x.args[0].id)
				if !addedT[k] {
					addedT[k] = true
					ms := e.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						m := e.prog.MethodValue(ms.At(i))
						if m != nil && e.isRepo(m) && len(m.Blocks) > 0 && !e.stMethods[m] {
							out = append(out, callback{fn: m, args: []*Sym{x.args[0]}})
						}
					}
				}
				if _, isF := nt.Underlying().(*types.Signature); !isF {
					return
				}
			}
		case OpCall:
			// only results that may carry a function
			if x.typ != nil && !mayHoldFunc(x.typ) {
				return
			}
		case OpPhi, OpWCell, OpLoad, OpConst:
			return
		}
		for _, a := range x.args {
			walk(a, d+1)
		}
	}
	for _, a := range args {
		walk(a, 0)
		walk(st.snap(a, 6), 0)
	}
	// one entry per function/binding
	var res []callback
	k2 := map[string]bool{}
	for _, c := range out {
		k := fmt.Sprintf("%p", c.fn)
		for _, b := range c.binds {
			k += fmt.Sprint(",", b.id)
		}
		for _, b := range c.args {
			k += fmt.Sprint(";", b.id)
		}
		if !k2[k] {
			k2[k] = true
			res = append(res, c)
		}
	}
	return res
}

type callback struct {
	fn    *ssa.Function
	binds []*Sym
	args  []*Sym
}

func mayHoldFunc(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Interface:
		return t.String() != "error"
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Struct)
		return ok
	case *types.Struct:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mayHoldFunc(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) exploreCallback(cb callback, st *State, depth int) *Graph {
	if depth > 5 {
		return nil
	}
	return e.explore("callback "+cb.fn.String(), cb.fn, cb.args, cb.binds, st, depth+1)
}

// fnByName finds a repo function or method by "pkgsuffix.Name" or
// "pkgsuffix.Type.Name".
func (e *Engine) fnByName(pkgSuffix, typ, name string) *ssa.Function {
	for path, sp := range e.ssapkgs {
		if path != e.modPath+"/"+pkgSuffix {
			continue
		}
		if typ == "" {
			return sp.Func(name)
		}
		tn, ok := sp.Pkg.Scope().Lookup(typ).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := e.prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == name {
					return e.prog.MethodValue(ms.At(i))
				}
			}
		}
	}
	return nil
}
