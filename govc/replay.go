package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- execution of the contracts on the real code

type dict struct {
	Ints []string
	Strs []string
}

type job struct {
	Seed   uint64
	Secs   float64
	MaxN   int
	Dict   map[string]dict
	Names  []string
	Replay string
	Case   int
	Out    string
}

type outcome struct {
	Name    string
	Cases   int
	Skipped int
	Fail    string
	Case    int
	Seed    uint64
	Args    []string
	Stack   string
	Samples []string
}

// textual scan of a contract file, independent of whether it type-checks
type textHarness struct {
	name, gen, file, dir string
	props                []string
	kind                 string
}

func scanContracts(dir string) ([]textHarness, error) {
	var out []textHarness
	fset := token.NewFileSet()
	err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, filepath.Dir(path))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || len(fd.Name.Name) < 4 {
				continue
			}
			n := fd.Name.Name
			switch n[:3] {
			case "VC_", "VT_", "VB_":
			default:
				continue
			}
			h := textHarness{name: n, file: path, dir: rel, kind: n[:2]}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "vc:") {
						continue
					}
					fl := strings.Fields(t[3:])
					switch fl[0] {
					case "gen":
						h.gen = fl[1]
					case "property":
						h.props = append(h.props, fl[1:]...)
					}
				}
			}
			out = append(out, h)
		}
		return nil
	})
	return out, err
}

// dictionary of the constants in the code a harness reaches
func (p *Program) dictionary(h *Harness) dict {
	ints := map[string]bool{}
	strs := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(fn *ssa.Function, d int)
	walk = func(fn *ssa.Function, d int) {
		if fn == nil || seen[fn] || d > 5 || !p.isRepo(fn) {
			return
		}
		if pk := fnPkg(fn); pk != nil && pk.Path() == vcPath {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					switch v := (*o).(type) {
					case *ssa.Const:
						if v.Value == nil {
							continue
						}
						switch v.Value.Kind() {
						case constant.Int:
							if len(ints) < 400 {
								ints[v.Value.ExactString()] = true
							}
						case constant.String:
							s := constant.StringVal(v.Value)
							if len(s) < 200 && len(strs) < 400 {
								strs[s] = true
							}
						}
					case *ssa.Function:
						walk(v, d+1)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			walk(a, d)
		}
	}
	walk(h.fn, 0)
	var r dict
	for _, k := range sortedKeys(ints) {
		r.Ints = append(r.Ints, k)
	}
	for _, k := range sortedKeys(strs) {
		r.Strs = append(r.Strs, hex.EncodeToString([]byte(k)))
	}
	return r
}

type runner struct {
	repo, verif string
	tmp         string
	drop        map[string]bool // contract files that do not compile
	bins        map[string]string
	errs        map[string]string
}

func newRunner(repo, verif string) *runner {
	d, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &runner{repo: repo, verif: verif, tmp: d, drop: map[string]bool{}, bins: map[string]string{}, errs: map[string]string{}}
}

func (r *runner) close() { os.RemoveAll(r.tmp) }

// build compiles the contracts of one package directory into a test binary.
func (r *runner) build(dir string, hs []textHarness) (string, error) {
	if b, ok := r.bins[dir]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.errs[dir])
		}
		return b, nil
	}
	ov, err := contractOverlay(filepath.Join(r.verif, "contracts"), r.repo)
	if err != nil {
		return "", err
	}
	for k, f := range ov {
		if r.drop[f] {
			delete(ov, k)
		}
	}
	pkgName := ""
	for _, h := range hs {
		if h.dir == dir {
			f, err := parser.ParseFile(token.NewFileSet(), h.file, nil, parser.PackageClauseOnly)
			if err != nil {
				return "", err
			}
			pkgName = f.Name.Name
			break
		}
	}
	gens := map[string]bool{}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"github.com/philhofer/seth/internal/vc\"\n)\n\nfunc TestVCRun(t *testing.T) {\n\tvc.Main([]vc.Harness{\n", pkgName)
	for _, h := range hs {
		if h.dir != dir || r.drop[h.file] {
			continue
		}
		g := "nil"
		if h.gen != "" {
			g = h.gen
		}
		gens[g] = true
		fmt.Fprintf(&sb, "\t\t{Name: %q, Fn: %s, Gen: %s},\n", h.name, h.name, g)
	}
	sb.WriteString("\t})\n}\n")
	base := strings.ReplaceAll(dir, "/", "_")
	if dir == "." {
		base = "root"
	}
	tf := filepath.Join(r.tmp, base+"_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0644)
	ov[filepath.Join(r.repo, dir, "zz_vc_run_test.go")] = tf
	if pkgName == "main" {
		if err := r.replaceExit(dir, ov); err != nil {
			return "", err
		}
	}
	// the package's own tests are not part of the binary
	ms, _ := filepath.Glob(filepath.Join(r.repo, dir, "*_test.go"))
	for _, m := range ms {
		ov[m] = ""
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(r.tmp, base+"_overlay.json")
	os.WriteFile(of, oj, 0644)
	bin := filepath.Join(r.tmp, base+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+dir)
	cmd.Dir = r.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.bins[dir] = ""
		r.errs[dir] = string(out)
		return "", fmt.Errorf("%s", out)
	}
	r.bins[dir] = bin
	return bin, nil
}

// replaceExit puts copies of the command's files into the overlay in which
// os.Exit is vc.Exit, which contracts can observe; nothing else changes.
func (r *runner) replaceExit(dir string, ov map[string]string) error {
	ms, _ := filepath.Glob(filepath.Join(r.repo, dir, "*.go"))
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		src, err := os.ReadFile(m)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, m, src, 0)
		if err != nil {
			return nil // the build reports it
		}
		osName := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"os"` {
				osName = "os"
				if im.Name != nil {
					osName = im.Name.Name
				}
			}
		}
		if osName == "" || osName == "." || osName == "_" {
			continue
		}
		var at [][2]int
		ast.Inspect(f, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok || se.Sel.Name != "Exit" {
				return true
			}
			if id, ok := se.X.(*ast.Ident); ok && id.Name == osName && id.Obj == nil {
				at = append(at, [2]int{fset.Position(se.Pos()).Offset, fset.Position(se.End()).Offset})
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		var b bytes.Buffer
		end := 0
		for _, p := range at {
			b.Write(src[end:p[0]])
			b.WriteString("zzvcExit.Exit")
			end = p[1]
		}
		b.Write(src[end:])
		pk := fset.Position(f.Name.End()).Offset
		out := b.String()[:pk] + "; import zzvcExit \"" + vcPath + "\"" + b.String()[pk:] + "\nvar _ = " + osName + ".Args\n"
		nf := filepath.Join(r.tmp, strings.ReplaceAll(dir, "/", "_")+"_"+filepath.Base(m))
		if err := os.WriteFile(nf, []byte(out), 0644); err != nil {
			return err
		}
		ov[m] = nf
	}
	return nil
}

// run executes harnesses of one package.
func (r *runner) run(dir string, hs []textHarness, j job) ([]outcome, error) {
	bin, err := r.build(dir, hs)
	if err != nil {
		return nil, err
	}
	j.Out = filepath.Join(r.tmp, fmt.Sprintf("out%d.json", time.Now().UnixNano()))
	jb, _ := json.Marshal(j)
	jf := j.Out + ".job"
	os.WriteFile(jf, jb, 0644)
	work, _ := os.MkdirTemp(r.tmp, "w")
	cmd := exec.Command(bin, "-test.run", "TestVCRun", "-test.timeout", "800s")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VC_JOB="+jf)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	rerr := cmd.Run()
	ob, err := os.ReadFile(j.Out)
	var outs []outcome
	if err == nil {
		err = json.Unmarshal(ob, &outs)
	}
	if rerr != nil {
		// a crash (fatal error, exit) while a harness runs
		have := map[string]bool{}
		hang := false
		for _, o := range outs {
			have[o.Name] = true
			if o.Fail != "" && strings.Contains(o.Fail, "hang") {
				hang = true
			}
		}
		if !hang {
			var rest []string
			for _, n := range j.Names {
				if !have[n] {
					rest = append(rest, n)
				}
			}
			sort.Strings(rest)
			if len(rest) > 0 {
				tail := buf.String()
				if len(tail) > 6000 {
					tail = tail[:6000]
				}
				cb, _ := os.ReadFile(j.Out + ".cur")
				var cur outcome
				if json.Unmarshal(cb, &cur) == nil && cur.Name != "" && !have[cur.Name] {
					cur.Fail = "process crashed"
					cur.Stack = tail
					outs = append(outs, cur)
				} else {
					outs = append(outs, outcome{Name: rest[0], Fail: "process crashed", Stack: tail, Seed: j.Seed})
				}
			}
		}
		return outs, nil
	}
	return outs, err
}

func bigStr(s string) *big.Int {
	b, _ := new(big.Int).SetString(s, 10)
	return b
}
