package main

// Loading: the real sources of the module under test (plus the overlay
// harness packages and every dependency) are parsed, type-checked and put
// into SSA form from the current working tree on every run.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Standard   bool
	GoFiles    []string
	ImportMap  map[string]string
	Imports    []string
	Module     *struct{ Path, Version, GoVersion string }
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }

	types  *types.Package
	info   *types.Info
	files  []*ast.File
	ssa    *ssa.Package
	noBody bool
	inMod  bool
	errs   []error
	done   chan struct{}
}

type Program struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*listPkg
	order   []*listPkg
	overlay map[string]string // real path -> replacement path
	modPath string
	goArgs  []string
	goEnv   []string
}

// Packages whose function bodies are never interpreted. Calling one of
// their functions ends the path as "not encodable" unless the function is
// replaced by an intrinsic or a stand-in.
var noBodyPrefixes = []string{
	"net/", "net", "crypto/", "vendor/", "os/", "internal/", "runtime", "runtime/", "syscall",
	"reflect", "encoding/gob", "encoding/asn1", "encoding/xml", "html", "html/template", "text/template", "text/template/parse",
	"compress/", "archive/", "math/big", "go/", "testing", "log/", "mime", "mime/", "debug/", "database/", "image", "expvar",
	"google.golang.org/protobuf", "github.com/golang/protobuf", "google.golang.org/genproto", "golang.org/x/",
	"github.com/blevesearch/", "github.com/couchbase/", "github.com/RoaringBitmap/", "github.com/boltdb/",
	"github.com/hashicorp/go-plugin", "github.com/hashicorp/yamux", "github.com/spf13/", "github.com/fsnotify/",
	"github.com/tinylib/", "github.com/glycerine/", "github.com/willf/", "github.com/philhofer/", "github.com/golang/snappy",
	"github.com/steveyen/", "github.com/Smerity/", "github.com/edsrzf/", "github.com/mitchellh/", "github.com/pelletier/",
	"github.com/magiconair/", "gopkg.in/", "github.com/subosito/", "github.com/hashicorp/hcl", "github.com/prologic/", "github.com/stretchr/",
	"github.com/plar/", "github.com/gofrs/", "github.com/pkg/errors", "github.com/derekparker/", "github.com/oklog/",
	"google.golang.org/grpc",
	"plugin", "embed",
}

// Exceptions to the list above (exact package paths).
var bodyExceptions = map[string]bool{
	"internal/stringslite": true, "internal/bytealg": true, "internal/itoa": true, "internal/strconv": true, "internal/reflectlite": true,
	"internal/filepathlite": true, "internal/oserror": true, "internal/abi": true, "internal/fmtsort": true, "internal/godebug": true,
	"internal/bisect": true, "internal/byteorder": true, "internal/unsafeheader": true, "internal/goarch": true, "internal/goos": true,
	"internal/asan": true, "internal/msan": true, "internal/race": true, "internal/runtime/maps": false,
	"google.golang.org/grpc/metadata": true, "google.golang.org/grpc/codes": true, "google.golang.org/grpc/status": true,
	"google.golang.org/grpc/internal/status": true, "google.golang.org/grpc/credentials": true, "google.golang.org/grpc/peer": true,
	"google.golang.org/grpc/credentials/insecure":  true,
	"google.golang.org/grpc/health/grpc_health_v1": false,
	"golang.org/x/net/context":                     true,
	"runtime":                                      false, "google.golang.org/genproto/googleapis/rpc/status": true, "internal/runtime/sys": true,
	"net/url": true, "os/signal": false, "crypto/subtle": true,
	"github.com/spf13/pflag": true, "github.com/spf13/cobra": true,
}

func isNoBody(path string) bool {
	if b, ok := bodyExceptions[path]; ok {
		return !b
	}
	for _, p := range noBodyPrefixes {
		if path == p || (strings.HasSuffix(p, "/") && strings.HasPrefix(path, p)) || (!strings.HasSuffix(p, "/") && strings.HasPrefix(path, p+"/")) || (strings.HasSuffix(p, "/") && path == strings.TrimSuffix(p, "/")) {
			return true
		}
	}
	if strings.HasPrefix(path, "github.com/hashicorp/hcl") {
		return true
	}
	return false
}

type loadError struct{ msg string }

func (e *loadError) Error() string { return e.msg }

func goList(goArgs, goEnv []string, dir string, patterns []string) ([]*listPkg, error) {
	args := append([]string{"list", "-deps", "-e", "-json=ImportPath,Name,Dir,Standard,GoFiles,ImportMap,Imports,Module,Error"}, goArgs...)
	args = append(args, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), goEnv...), "CGO_ENABLED=0")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, &loadError{fmt.Sprintf("go list: %v: %s", err, eb.String())}
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []*listPkg
	for dec.More() {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			return nil, &loadError{"go list: " + err.Error()}
		}
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

func (P *Program) load(dir string, patterns []string) error {
	pkgs, err := goList(P.goArgs, P.goEnv, dir, patterns)
	if err != nil {
		return err
	}
	P.fset = token.NewFileSet()
	P.pkgs = map[string]*listPkg{}
	P.order = pkgs
	for _, p := range pkgs {
		p.done = make(chan struct{})
		p.inMod = p.Module != nil && p.Module.Path == P.modPath
		p.noBody = !p.inMod && isNoBody(p.ImportPath)
		P.pkgs[p.ImportPath] = p
	}
	// Parse in parallel.
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, p := range pkgs {
		if p.ImportPath == "unsafe" {
			continue
		}
		p.files = make([]*ast.File, len(p.GoFiles))
		for i, f := range p.GoFiles {
			wg.Add(1)
			go func(p *listPkg, i int, f string) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				path := f
				if !filepath.IsAbs(path) {
					path = filepath.Join(p.Dir, f)
				}
				src := path
				if r, ok := P.overlay[path]; ok {
					src = r
				}
				data, err := os.ReadFile(src)
				if err != nil {
					p.errs = append(p.errs, err)
					return
				}
				mode := parser.SkipObjectResolution
				if p.inMod {
					mode |= parser.ParseComments
				}
				af, err := parser.ParseFile(P.fset, path, data, mode)
				if err != nil {
					p.errs = append(p.errs, err)
				}
				if p.noBody && af != nil {
					for _, d := range af.Decls {
						if fd, ok := d.(*ast.FuncDecl); ok {
							fd.Body = nil
						}
					}
				}
				p.files[i] = af
			}(p, i, f)
		}
	}
	wg.Wait()
	// Type-check in dependency order, in parallel.
	for _, p := range pkgs {
		wg.Add(1)
		go func(p *listPkg) {
			defer wg.Done()
			defer close(p.done)
			if p.ImportPath == "unsafe" {
				p.types = types.Unsafe
				return
			}
			for _, imp := range p.Imports {
				if m, ok := p.ImportMap[imp]; ok {
					imp = m
				}
				if q := P.pkgs[imp]; q != nil {
					<-q.done
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			p.info = &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
				Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
			}
			cfg := &types.Config{
				Importer: importFn(func(path string) (*types.Package, error) {
					if m, ok := p.ImportMap[path]; ok {
						path = m
					}
					q := P.pkgs[path]
					if q == nil || q.types == nil {
						return nil, fmt.Errorf("no package %q", path)
					}
					return q.types, nil
				}),
				IgnoreFuncBodies: p.noBody,
				FakeImportC:      true,
				Sizes:            types.SizesFor("gc", "amd64"),
				Error: func(err error) {
					p.errs = append(p.errs, err)
				},
			}
			if p.Module != nil {
				// decides, among others, whether loop variables are per iteration
				cfg.GoVersion = "go1.16"
				if p.Module.GoVersion != "" {
					cfg.GoVersion = "go" + p.Module.GoVersion
				}
			}
			var fs []*ast.File
			for _, f := range p.files {
				if f != nil {
					fs = append(fs, f)
				}
			}
			p.types, _ = cfg.Check(p.ImportPath, P.fset, fs, p.info)
			p.files = fs
		}(p)
	}
	wg.Wait()
	for _, p := range pkgs {
		if p.inMod {
			var hard []string
			if p.Error != nil {
				hard = append(hard, p.Error.Err)
			}
			for _, e := range p.errs {
				if te, ok := e.(types.Error); ok && te.Soft {
					continue
				}
				hard = append(hard, e.Error())
			}
			if len(hard) > 0 {
				sort.Strings(hard)
				return &loadError{p.ImportPath + ": " + strings.Join(hard[:min(len(hard), 5)], "; ")}
			}
		}
	}
	P.prog = ssa.NewProgram(P.fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	for _, p := range pkgs {
		if p.types == nil {
			continue
		}
		if p.ImportPath == "unsafe" {
			P.prog.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		p.ssa = P.prog.CreatePackage(p.types, p.files, p.info, true)
	}
	return nil
}

type importFn func(string) (*types.Package, error)

func (f importFn) Import(path string) (*types.Package, error) { return f(path) }
