package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Harness packages carrying the directive "//gosym:vfs" run against a virtual
// file system: the current sources of the packages below are copied with
// their operating-system calls (os.X, ioutil.X, filepath.X where the virtual
// file system offers X) redirected to it, and the copies replace the originals
// for the symbolic execution and for native replay alike. Nothing else of the
// sources changes.

const zzosPath = "github.com/netauth/netauth/internal/zzos"
const zznetPath = "github.com/netauth/netauth/internal/zznet"
const zzbcPath = "github.com/netauth/netauth/internal/zzbc"

var rewriteDirs = []string{"internal/db/filesystem", "internal/db/bitcask", "pkg/netauth/cache/fs", "cmd/nsutil", "pkg/netauth", "internal/ctl"}

// with "//gosym:net" the server's main package is rewritten as well
var netDirs = []string{"cmd/netauthd", "internal/plugin/tree/consumer", "internal/plugin/tree/manager", "internal/plugin/tree/provider", "plugins/tree/fail2lock", "internal/token", "internal/token/jwt", "internal/ctl"}

// rule tells which package offers replacements for an imported package, and
// with which prefix to their names.
type rule struct{ to, prefix, keep string }

var vfsRules = map[string]rule{
	"os":            {"zzos", "", "Getpid"},
	"io/ioutil":     {"zzos", "Ioutil", "Discard"},
	"path/filepath": {"zzos", "Filepath", "Clean"},
}

// "//gosym:net": the transport, command line and signals are replaced too.
var netRules = map[string]rule{
	"google.golang.org/grpc":             {"zznet", "Grpc", "Version"},
	"google.golang.org/grpc/credentials": {"zznet", "Cred", "NewTLS"},
	"github.com/netauth/protocol/v2":     {"zznet", "Rpc", "NewNetAuth2Client"},
	"github.com/spf13/viper":             {"zznet", "Viper", "GetString"},
	"github.com/spf13/pflag":             {"zznet", "Pflag", "CommandLine"},
	"net":                                {"zznet", "Net", "ParseIP"},
	"github.com/hashicorp/go-plugin":     {"zznet", "Plugin", "NewClient"},
	"os/exec":                            {"zznet", "Exec", "LookPath"},
	"os/signal":                          {"zznet", "Signal", "Stop"},
	"time":                               {"zznet", "Time", "Second"},
	"github.com/bgentry/speakeasy":       {"zznet", "Speakeasy", "Ask"},
	"os/user":                            {"zznet", "User", "Current"},
	"fmt":                                {"zznet", "Fmt", "Sprint"},
}

// packages with an import redirected as a whole
var redirect = map[string]string{
	"github.com/prologic/bitcask": zzbcPath,
	"github.com/google/renameio":  zzosPath + "/renameio",
}

var pkgPaths = map[string]string{"zzos": zzosPath, "zznet": zznetPath}

// exportsOf lists the exported names of an overlay package.
func exportsOf(dir string, overlay map[string]string, into map[string]bool) error {
	for real, src := range overlay {
		if filepath.Dir(real) != dir {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), src, nil, 0)
		if err != nil {
			return err
		}
		pkg := filepath.Base(dir) + "."
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					into[pkg+d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						into[pkg+sp.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range sp.Names {
							into[pkg+n.Name] = true
						}
					}
				}
			}
		}
	}
	return nil
}

// addRewrites extends the overlay with rewritten sources.
func addRewrites(repo, scratch string, overlay map[string]string, net bool) error {
	exports := map[string]bool{}
	dirs := rewriteDirs
	rules := map[string]rule{}
	for k, v := range vfsRules {
		rules[k] = v
	}
	if err := exportsOf(filepath.Join(repo, "internal", "zzos"), overlay, exports); err != nil {
		return err
	}
	if net {
		dirs = append(append([]string{}, dirs...), netDirs...)
		for k, v := range netRules {
			rules[k] = v
		}
		if err := exportsOf(filepath.Join(repo, "internal", "zznet"), overlay, exports); err != nil {
			return err
		}
	}
	n := 0
	emit := func(dst, src string) error {
		out, changed, err := rewriteFile(src, exports, rules)
		if err != nil {
			return err
		}
		if !changed && dst == src {
			return nil
		}
		n++
		p := filepath.Join(scratch, fmt.Sprintf("rw%d_%s", n, filepath.Base(src)))
		if err := os.WriteFile(p, out, 0o644); err != nil {
			return err
		}
		overlay[dst] = p
		return nil
	}
	for _, d := range dirs {
		ms, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			if _, ok := overlay[m]; ok {
				continue
			}
			if err := emit(m, m); err != nil {
				return err
			}
		}
	}
	// renameio lives in the module cache, whose files cannot be replaced: a
	// rewritten copy of it becomes a package of the module.
	cmd := exec.Command("go", "list", "-mod=mod", "-m", "-f", "{{.Dir}}", "github.com/google/renameio")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-modfile="+filepath.Join(scratch, "go.mod"), "GOPROXY=off", "GOTOOLCHAIN=local")
	b, err := cmd.Output()
	if err == nil {
		ms, _ := filepath.Glob(filepath.Join(strings.TrimSpace(string(b)), "*.go"))
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") || strings.HasPrefix(filepath.Base(m), "example") {
				continue
			}
			if err := emit(filepath.Join(repo, "internal", "zzos", "renameio", filepath.Base(m)), m); err != nil {
				return err
			}
		}
	}
	return nil
}

type edit struct {
	from, to int
	text     string
}

func rewriteFile(path string, exports map[string]bool, rules map[string]rule) ([]byte, bool, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, false, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return src, false, nil // the loader reports it
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	local := map[string]string{} // local name -> import path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if to, ok := redirect[p]; ok {
			t := strconv.Quote(to)
			if im.Name == nil {
				t = filepath.Base(p) + " " + t
			}
			eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), t})
			continue
		}
		if _, ok := rules[p]; !ok {
			continue
		}
		if p == "fmt" && !strings.HasSuffix(filepath.Dir(path), "/internal/ctl") {
			continue // only what the command-line tool prints is of interest
		}
		name := strings.TrimPrefix(filepath.Base(p), "go-")
		if im.Name != nil {
			name = im.Name.Name
		}
		if name != "_" && name != "." {
			local[name] = p
		}
	}
	touched := map[string]bool{}
	used := map[string]bool{}
	tail := ""
	if rules["time"].to != "" && strings.HasSuffix(filepath.Dir(path), "/fail2lock") {
		// a plugin is configured before it starts: the harness runs its
		// initialisation
		for i, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				n := fmt.Sprintf("zzinit%d_%s", i, strings.TrimSuffix(filepath.Base(path), ".go"))
				eds = append(eds, edit{off(fd.Name.Pos()), off(fd.Name.End()), n})
				tail += "\nfunc init() { zznet.Inits = append(zznet.Inits, " + n + ") }"
				used["zznet"] = true
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		se, ok := x.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || (id.Obj != nil) {
			return true
		}
		p, ok := local[id.Name]
		if !ok {
			return true
		}
		to := rules[p].to + "." + rules[p].prefix + se.Sel.Name
		if !exports[to] {
			return true
		}
		touched[id.Name] = true
		used[rules[p].to] = true
		eds = append(eds, edit{off(se.Pos()), off(se.End()), to})
		return true
	})
	if len(eds) == 0 {
		return src, false, nil
	}
	if len(used) > 0 {
		// on the line of the package clause, so that line numbers stay
		t := ""
		for _, k := range []string{"zznet", "zzos"} {
			if used[k] {
				t += "; import " + k + " " + strconv.Quote(pkgPaths[k])
			}
		}
		eds = append(eds, edit{off(f.Name.End()), off(f.Name.End()), t})
		var ns []string
		for n := range touched {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			tail += "\nvar _ = " + n + "." + rules[local[n]].keep
		}
	}
	tail += "\n"
	sort.Slice(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	var b bytes.Buffer
	at := 0
	for _, e := range eds {
		b.Write(src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(src[at:])
	b.WriteString(tail)
	return b.Bytes(), true, nil
}
