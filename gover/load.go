package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoDir = "/repo"
	modPath = "github.com/yields/ant"
	vPath   = modPath + "/internal/zzv"
	mPath   = modPath + "/internal/zzm"
)

// Contract is a contract function found in the overlay.
type Contract struct {
	Name  string // file-local name
	Prop  string // properties, space separated
	Fn    *ssa.Function
	Use   string // target usable in use mode
	Title string
	File  string
	Opts  map[string]string
}

// Prog is the loaded program.
type Prog struct {
	fset      *token.FileSet
	prog      *ssa.Program
	specFile  map[string]bool // overlay paths
	mutable   map[*ssa.Global]bool
	globConst map[*ssa.Global]*ssa.Const // initialised with a constant
	contracts []*Contract
	models    map[string]*ssa.Function
	opaque    map[string]types.Type
	rec       map[*ssa.Function]bool // recursive specification functions
	dropped   map[string]string      // spec file -> error
	inits     map[*ssa.Global]*ssa.Function
	files     []string
	srcFiles  []string
	loopCache map[*ssa.Function]*loopForest
	pure      map[string]bool
	targets   map[*Contract]*ssa.Function
	all       map[*ssa.Function]bool
}

// overlay maps /verif/specs onto /repo.
func overlay(specDir string, skip map[string]string, only map[string]bool) (map[string][]byte, map[string]string, error) {
	out := map[string][]byte{}
	orig := map[string]string{}
	err := filepath.Walk(specDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(specDir, p)
		if skip[rel] != "" {
			return nil
		}
		dir := filepath.Dir(rel)
		base := filepath.Base(rel)
		var dst string
		switch {
		case dir == "zzv" || dir == "zzm":
			dst = filepath.Join(repoDir, "internal", dir, base)
		default:
			if only != nil && !concerns(base, only) {
				return nil
			}
			d := dir
			if dir == "ant" || strings.HasPrefix(dir, "ant/") {
				d = strings.TrimPrefix(strings.TrimPrefix(dir, "ant"), "/")
			}
			dst = filepath.Join(repoDir, d, "zz_verif_"+base)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[dst] = b
		orig[dst] = rel
		return nil
	})
	return out, orig, err
}

// concerns tells whether a contract file, whose name lists its properties
// (C09_C10_fetch.go), is one of the given properties'.
func concerns(base string, only map[string]bool) bool {
	for _, w := range strings.Split(strings.TrimSuffix(base, ".go"), "_") {
		if only[w] || w == "common" {
			return true
		}
	}
	return false
}

func loadProg(specDir string, only map[string]bool) (*Prog, error) {
	dropped := map[string]string{}
	for round := 0; round < 6; round++ {
		p, bad, err := loadOnce(specDir, dropped, only)
		if err != nil {
			return nil, err
		}
		if len(bad) == 0 {
			p.dropped = dropped
			return p, nil
		}
		for k, v := range bad {
			dropped[k] = v
		}
	}
	return nil, fmt.Errorf("specifications do not settle: %v", dropped)
}

func loadOnce(specDir string, skip map[string]string, only map[string]bool) (*Prog, map[string]string, error) {
	ov, orig, err := overlay(specDir, skip, only)
	if err != nil {
		return nil, nil, err
	}
	var files []string
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule,
		Dir:     repoDir,
		Overlay: ov,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if err == nil && !strings.HasPrefix(filename, repoDir+"/") {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pats := []string{"./", "./antcache", "./antcdp", "./internal/..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	bad := map[string]string{}
	var hard []string
	inRepo := map[*packages.Package]bool{}
	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		all = append(all, p)
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			inRepo[p] = true
			for _, e := range p.Errors {
				file := e.Pos
				if i := strings.IndexByte(file, ':'); i >= 0 {
					file = file[:i]
				}
				if rel, ok := orig[file]; ok {
					if bad[rel] == "" {
						bad[rel] = e.Error()
					}
					continue
				}
				hard = append(hard, e.Error())
			}
		}
	})
	if len(bad) > 0 {
		for rel, e := range bad {
			d := filepath.Dir(rel)
			if d == "zzv" || d == "zzm" {
				return nil, nil, fmt.Errorf("%s: %s", rel, e)
			}
		}
		return nil, bad, nil
	}
	if len(hard) > 0 {
		return nil, nil, fmt.Errorf("repository does not type-check: %s", strings.Join(hard, "; "))
	}
	p := &Prog{
		specFile: map[string]bool{}, mutable: map[*ssa.Global]bool{}, globConst: map[*ssa.Global]*ssa.Const{}, models: map[string]*ssa.Function{},
		opaque: map[string]types.Type{}, rec: map[*ssa.Function]bool{}, inits: map[*ssa.Global]*ssa.Function{},
		loopCache: map[*ssa.Function]*loopForest{}, pure: map[string]bool{}, targets: map[*Contract]*ssa.Function{},
	}
	for k := range ov {
		p.specFile[k] = true
	}
	p.fset = all[0].Fset
	prog := ssa.NewProgram(p.fset, ssa.InstantiateGenerics|ssa.GlobalDebug)
	p.prog = prog
	created := map[*types.Package]*ssa.Package{}
	var repoPkgs []*ssa.Package
	for _, pk := range all {
		if pk.Types == nil || created[pk.Types] != nil {
			continue
		}
		if inRepo[pk] {
			sp := prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
			created[pk.Types] = sp
			repoPkgs = append(repoPkgs, sp)
			for _, f := range pk.CompiledGoFiles {
				if !p.specFile[f] {
					p.srcFiles = append(p.srcFiles, f)
				}
			}
		} else {
			created[pk.Types] = prog.CreatePackage(pk.Types, nil, nil, true)
		}
	}
	sort.Strings(p.srcFiles)
	for _, sp := range repoPkgs {
		sp.Build()
	}
	_ = files
	// mutability of globals
	p.all = ssautil.AllFunctions(prog)
	for fn := range p.all {
		if fn.Pkg == nil && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						if c, isc := in.Val.(*ssa.Const); isc {
							p.globConst[g] = c
						}
						if fn.Name() != "init" || fn.Synthetic == "" {
							p.mutable[g] = true
						}
						continue
					}
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						switch in.(type) {
						case *ssa.UnOp, *ssa.Store, *ssa.DebugRef:
						default:
							// address taken (fields and elements may still
							// be only read)
							if _, isf := in.(*ssa.FieldAddr); !isf {
								p.mutable[g] = true
							}
						}
					}
				}
			}
		}
	}
	// directives
	for _, pk := range all {
		if !inRepo[pk] {
			continue
		}
		sp := created[pk.Types]
		for _, f := range pk.Syntax {
			fname := p.fset.Position(f.Pos()).Filename
			if !p.specFile[fname] {
				continue
			}
			p.directives(sp, pk, f, orig[fname])
		}
	}
	byName := map[string]*ssa.Function{}
	for fn := range p.all {
		if fn.Synthetic == "" {
			byName[qualName(fn)] = fn
		}
	}
	for _, c := range p.contracts {
		if c.Use != "" {
			p.targets[c] = byName[c.Use]
		}
	}
	return p, nil, nil
}

func (p *Prog) directives(sp *ssa.Package, pk *packages.Package, f *ast.File, rel string) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Doc == nil || d.Recv != nil {
				continue
			}
			fn := sp.Func(d.Name.Name)
			c := &Contract{Name: d.Name.Name, Fn: fn, File: rel, Opts: map[string]string{}}
			for _, l := range d.Doc.List {
				t := l.Text
				switch {
				case strings.HasPrefix(t, "//verif:property "):
					c.Prop = strings.TrimSpace(strings.TrimPrefix(t, "//verif:property "))
				case strings.HasPrefix(t, "//verif:contract "):
					c.Use = strings.TrimSpace(strings.TrimPrefix(t, "//verif:contract "))
				case strings.HasPrefix(t, "//verif:opt "):
					kv := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(t, "//verif:opt ")), "=", 2)
					if len(kv) == 1 {
						kv = append(kv, "1")
					}
					c.Opts[kv[0]] = kv[1]
				case strings.HasPrefix(t, "//verif:model "):
					for _, n := range strings.Fields(strings.TrimPrefix(t, "//verif:model ")) {
						p.models[n] = fn
					}
				case strings.HasPrefix(t, "//verif:rec"):
					p.rec[fn] = true
				case strings.HasPrefix(t, "//verif:covers "):
					c.Title = strings.TrimSpace(strings.TrimPrefix(t, "//verif:covers "))
				}
			}
			if c.Prop != "" || c.Use != "" {
				p.contracts = append(p.contracts, c)
			}
		case *ast.GenDecl:
			// //verif:opaque on: var _ = opaque marker: "type X = T" with
			// the directive naming the representation.
			for _, s := range d.Specs {
				ts, ok := s.(*ast.TypeSpec)
				if !ok {
					continue
				}
				doc := ts.Doc
				if doc == nil {
					doc = d.Doc
				}
				if doc == nil {
					continue
				}
				for _, l := range doc.List {
					if strings.HasPrefix(l.Text, "//verif:opaque ") {
						// type rep<T> R   with the directive naming T
						n := strings.TrimSpace(strings.TrimPrefix(l.Text, "//verif:opaque "))
						o := pk.Types.Scope().Lookup(ts.Name.Name)
						if o != nil {
							p.opaque[n] = o.Type().Underlying()
						}
					}
				}
			}
		}
	}
}

// isSpec tells whether the function is specification code.
func (p *Prog) isSpec(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if f.Pos().IsValid() {
			return p.specFile[p.fset.Position(f.Pos()).Filename]
		}
	}
	return false
}

// qualName is the full name of a function with the module path shortened.
func qualName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.ReplaceAll(fn.RelString(nil), modPath, "ant")
}
