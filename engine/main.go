package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const module = "github.com/flachnetz/dd-zipkin-proxy"

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

// harness is one function ZZ<id>_<name> of a file /verif/harness/<pkg>/<id>*.go (lower case id).
type harness struct {
	pkg   string // directory in the repository, "." for the root
	fn    string
	file  string
	quick int // seconds
	thor  int
	reach []string
	opts  map[string]bool
	bound string
	order int
}

func (h *harness) importPath() string {
	if h.pkg == "." {
		return module
	}
	return module + "/" + h.pkg
}

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func pkgDirOf(d string) string {
	if d == "root" {
		return "."
	}
	return strings.ReplaceAll(d, "__", "/")
}

// findHarnesses lists the harnesses and files that belong to a property.
func findHarnesses(id string) (hs []*harness, files map[string]string) {
	files = map[string]string{}
	lid := strings.ToLower(id)
	base := filepath.Join(verifDir, "harness")
	dirs, _ := os.ReadDir(base)
	for _, d := range dirs {
		if !d.IsDir() || d.Name() == "vsym" {
			continue
		}
		pkg := pkgDirOf(d.Name())
		fs, _ := os.ReadDir(filepath.Join(base, d.Name()))
		var common []string
		found := false
		for _, f := range fs {
			n := f.Name()
			p := filepath.Join(base, d.Name(), n)
			if strings.HasPrefix(n, "common") && strings.HasSuffix(n, ".go") {
				common = append(common, p)
				continue
			}
			if !strings.HasPrefix(n, lid) || !strings.HasSuffix(n, ".go") {
				continue
			}
			found = true
			files[filepath.Join(repoDir, pkg, "zz_verif_"+n)] = p
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
			if err != nil {
				fail("%v", err)
			}
			for _, dl := range af.Decls {
				fd, ok := dl.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "ZZ"+id+"_") {
					continue
				}
				h := &harness{pkg: pkg, fn: fd.Name.Name, file: p, quick: 60, thor: 300, opts: map[string]bool{}, order: len(hs)}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						txt := strings.TrimPrefix(c.Text, "//")
						if !strings.HasPrefix(txt, "gosym:") {
							h.bound += strings.TrimSpace(txt) + " "
							continue
						}
						for _, kv := range strings.Fields(strings.TrimPrefix(txt, "gosym:")) {
							k, v, _ := strings.Cut(kv, "=")
							switch k {
							case "quick":
								h.quick, _ = strconv.Atoi(v)
							case "thorough":
								h.thor, _ = strconv.Atoi(v)
							case "reach":
								h.reach = strings.Split(v, ",")
							default:
								h.opts[k] = true
							}
						}
					}
				}
				hs = append(hs, h)
			}
		}
		if found {
			for _, p := range common {
				files[filepath.Join(repoDir, pkg, "zz_verif_"+filepath.Base(p))] = p
			}
		}
	}
	if len(hs) > 0 {
		files[filepath.Join(repoDir, "internal/vsym/v.go")] = filepath.Join(verifDir, "harness/vsym/v.go")
	}
	return hs, files
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GODEBUG", "TZ":
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "TZ=UTC")
}

type Loaded struct {
	prog *Program
	fns  map[string]*ssa.Function // import path + "." + name
}

func load(hs []*harness, files map[string]string) (*Loaded, error) {
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	pats := map[string]bool{}
	var list []string
	for _, h := range hs {
		if !pats[h.importPath()] {
			pats[h.importPath()] = true
			list = append(list, h.importPath())
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov, Env: goEnv()}
	ps, err := packages.Load(cfg, list...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, module) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the harness does not build with the current source:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{prog: &Program{prog: prog, pkgs: map[string]*ssa.Package{}, module: module}, fns: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		l.prog.pkgs[p.Pkg.Path()] = p
	}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "ZZ") {
				l.fns[p.Pkg.Path()+"."+n] = f
			}
		}
	}
	return l, nil
}

var reOverlaid = regexp.MustCompile(`[^\s:]*zz_verif_\w+\.go`)

// ---- native replay ----

type Native struct {
	dir  string
	mu   sync.Mutex
	bins map[string]string // pkg|race|perturb -> binary
	errs map[string]string
	fs   map[string]string
	hs   []*harness
}

func newNative(hs []*harness, files map[string]string) *Native {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fail("%v", err)
	}
	return &Native{dir: d, bins: map[string]string{}, errs: map[string]string{}, fs: files, hs: hs}
}

func (n *Native) close() { os.RemoveAll(n.dir) }

const replayTmpl = `package %s

import (
	"os"
	"testing"
	"testing/synctest"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

var zzHarnesses = map[string]func(){
%s}

func TestZZReplay(t *testing.T) {
	vsym.Load(os.Getenv("VSYM_INPUT"))
	f := zzHarnesses[os.Getenv("VSYM_HARNESS")]
	if os.Getenv("VSYM_BUBBLE") == "1" {
		synctest.Test(t, func(t *testing.T) {
			vsym.SettleFn = synctest.Wait
			vsym.AdvanceFn = func(d time.Duration) { synctest.Wait(); time.Sleep(d); synctest.Wait() }
			f()
			vsym.Finish()
		})
		return
	}
	vsym.SettleFn = func() { time.Sleep(20 * time.Millisecond) }
	vsym.AdvanceFn = func(d time.Duration) { time.Sleep(d) }
	f()
	vsym.Finish()
}
`

// build compiles the replay binary of a package.
func (n *Native) build(pkg string, race, perturb bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	key := fmt.Sprintf("%s|%v|%v", pkg, race, perturb)
	if b, ok := n.bins[key]; ok {
		return b, nil
	}
	if e, ok := n.errs[key]; ok {
		return "", fmt.Errorf("%s", e)
	}
	var names []string
	pkgName := filepath.Base(pkg)
	for _, h := range n.hs {
		if h.pkg == pkg {
			names = append(names, fmt.Sprintf("\t%q: %s,\n", h.fn, h.fn))
		}
	}
	for _, h := range n.hs {
		if h.pkg == pkg {
			pkgName = packageClause(h.file)
			break
		}
	}
	tag := strings.NewReplacer("/", "_", "|", "_", ".", "root").Replace(key)
	tf := filepath.Join(n.dir, tag+"_replay_test.go")
	os.WriteFile(tf, []byte(fmt.Sprintf(replayTmpl, pkgName, strings.Join(names, ""))), 0o644)
	rep := map[string]string{}
	for d, s := range n.fs {
		rep[d] = s
	}
	dir := filepath.Join(repoDir, pkg)
	rep[filepath.Join(dir, "zz_verif_replay_test.go")] = tf
	// the repository's own tests are not part of the replay
	old, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, o := range old {
		rep[o] = ""
	}
	if perturb {
		for src, dst := range perturbFiles(n.dir, tag, n.fs) {
			rep[src] = dst
		}
	}
	ovf := filepath.Join(n.dir, tag+"_overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(n.dir, tag+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	if pkg == "." || pkg == "" || pkg == "balance" {
		// vsym.Replace patches functions, which must not be inlined into the repository's code
		args = append(args, "-gcflags=github.com/flachnetz/dd-zipkin-proxy/...=-l")
	}
	p := "./" + pkg
	args = append(args, p)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.errs[key] = fmt.Sprintf("replay build: %v\n%s", err, out)
		return "", fmt.Errorf("%s", n.errs[key])
	}
	n.bins[key] = bin
	return bin, nil
}

func packageClause(file string) string {
	af, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.PackageClauseOnly)
	if err != nil {
		fail("%v", err)
	}
	return af.Name.Name
}

type runResult struct {
	kind string // ok, assert, assume, panic, timeout, race, exit, build
	msg  string
	out  string
}

var reViol = regexp.MustCompile(`(?m)^VSYM-VIOLATION (.*)$`)

func (n *Native) run(h *harness, inputs []InputRec, thorough, race, perturb bool, seed int) runResult {
	bin, err := n.build(h.pkg, race, perturb)
	if err != nil {
		return runResult{kind: "build", msg: err.Error()}
	}
	b, _ := json.Marshal(map[string]any{"inputs": inputs, "thorough": thorough})
	f, err := os.CreateTemp(n.dir, "in*.json")
	if err != nil {
		return runResult{kind: "build", msg: err.Error()}
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	bub := "1"
	if h.opts["nobubble"] {
		bub = "0"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestZZReplay", "-test.timeout", "0", "-test.v")
	cmd.Dir = n.dir
	cmd.Env = append(goEnv(), "VSYM_INPUT="+f.Name(), "VSYM_HARNESS="+h.fn, "VSYM_BUBBLE="+bub, "GODEBUG=asynctimerchan=0",
		fmt.Sprintf("VSYM_PERTURB=%d", seed), "GORACE=halt_on_error=1", "GOMEMLIMIT=3GiB")
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err = cmd.Run()
	out := ob.String()
	if len(out) > 6000 {
		out = out[:3000] + "\n...\n" + out[len(out)-2500:]
	}
	full := ob.String()
	switch {
	case ctx.Err() != nil:
		return runResult{"timeout", "no end within 25 s", out}
	case strings.Contains(full, "WARNING: DATA RACE"):
		return runResult{"race", "data race", out}
	case reViol.MatchString(full):
		return runResult{"assert", reViol.FindStringSubmatch(full)[1], out}
	case strings.Contains(full, "\nVSYM-ASSUME"):
		return runResult{"assume", "", out}
	case strings.Contains(full, "\nVSYM-OK"):
		i := strings.Index(full, "\nVSYM-OK ")
		l := full[i+len("\nVSYM-OK "):]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		return runResult{"ok", l, out}
	case strings.Contains(full, "stack exceeds") || strings.Contains(full, "stack overflow"):
		return runResult{"panic", "stack overflow", out}
	case strings.Contains(full, "deadlock"):
		return runResult{"deadlock", "deadlock", out}
	case strings.Contains(full, "panic:") || strings.Contains(full, "fatal error:"):
		return runResult{"panic", "", out}
	}
	return runResult{"exit", fmt.Sprint(err), out}
}

// confirm replays a violation against the real code.
func (n *Native) confirm(h *harness, v *Violation, thorough bool, seed int) (bool, runResult) {
	race := v.Kind == "race"
	tries := 1
	if h.opts["stress"] || race {
		tries = 60
	}
	var last runResult
	deadline := time.Now().Add(120 * time.Second)
	for i := 0; i < tries && time.Now().Before(deadline); i++ {
		r := n.run(h, v.Inputs, thorough, race, i > 0 && h.opts["stress"], seed+i)
		last = r
		switch r.kind {
		case "assert", "panic", "race", "deadlock", "timeout", "exit":
			return true, r
		case "build":
			return false, r
		}
	}
	return false, last
}

// ---- check ----

type report struct {
	mu sync.Mutex
}

func knownFindings(id string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		// open: property=<id> harness=<fn> match=<regexp> :: <what fails>
		if strings.HasPrefix(l, "open: property="+id+" ") {
			r = append(r, strings.TrimPrefix(l, "open: property="+id+" "))
		}
	}
	return r
}

func matchKnown(list []string, h *harness, v *Violation) (string, bool) {
	for _, l := range list {
		spec, what, _ := strings.Cut(l, " :: ")
		hn, re, ok := strings.Cut(strings.TrimPrefix(spec, "harness="), " match=")
		if !ok || hn != h.fn {
			continue
		}
		if m, err := regexp.MatchString(re, v.Kind+": "+v.Msg); err == nil && m {
			return what, true
		}
	}
	return "", false
}

func check(id string, only string, verbose bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := tier == "thorough"
	budget := 600 * time.Second
	if thorough {
		budget = 3 * time.Hour
	}
	hs, files := findHarnesses(id)
	if only != "" {
		var k []*harness
		for _, h := range hs {
			if strings.Contains(h.fn, only) {
				k = append(k, h)
			}
		}
		hs = k
	}
	if len(hs) == 0 {
		fail("no harness for %s", id)
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	evFile := filepath.Join(evDir, id+".json")
	os.Remove(evFile)

	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking"}
	writeEv := func(cov map[string]any, viol int) {
		ev["coverage"] = cov
		ev["wall_s"] = time.Since(t0).Seconds()
		ev["violations"] = viol
		ev["assumptions"] = []string{
			"the executor (gosym) interprets Go SSA with the semantics of the gc compiler on amd64; sample paths and every counterexample are re-run on the compiled code",
			"time, sync, sync/atomic, fmt, encoding/json decoding, reflect2, sort swapping and channels are modelled as documented in DESIGN.md; logging and metrics have no effect",
			"z3 is trusted; queries it gives up on are retried with cvc5 and counted as unknown if undecided",
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(evFile, b, 0o644)
	}

	var notes []string
	ld, err := load(hs, files)
	for err != nil {
		// harnesses that use an internal name which is no longer there are left out, the others still decide
		bad := map[string]bool{}
		for _, m := range reOverlaid.FindAllString(err.Error(), -1) {
			bad[m] = true
		}
		var keep []*harness
		for _, h := range hs {
			if bad[filepath.Join(repoDir, h.pkg, "zz_verif_"+filepath.Base(h.file))] {
				s := fmt.Sprintf("%s does not build with the current source and was left out", h.fn)
				notes = append(notes, s)
				fmt.Println("NOTE", s)
			} else {
				keep = append(keep, h)
			}
		}
		if len(keep) == len(hs) || len(keep) == 0 {
			fmt.Printf("INCONCLUSIVE property=%s: %v\n", id, err)
			return 2
		}
		hs = keep
		for f := range files {
			if bad[f] {
				delete(files, f)
			}
		}
		ld, err = load(hs, files)
	}
	if verbose {
		fmt.Printf("loaded in %v\n", time.Since(t0))
	}
	nat := newNative(hs, files)
	defer nat.close()
	// compile the replay binaries while exploring
	pk := map[string]bool{}
	for _, h := range hs {
		if !pk[h.pkg] {
			pk[h.pkg] = true
			go nat.build(h.pkg, false, false)
		}
	}
	nw := 8
	if c := runtime.NumCPU(); c < nw {
		nw = c
	}
	var ws []*Wk
	closeWs := func() {
		for _, w := range ws {
			w.solver.Close()
		}
	}
	newWs := func(realTime bool) {
		closeWs()
		ws = make([]*Wk, nw)
		for i := range ws {
			ws[i] = NewWk(i, ld.prog, Options{maxViolations: 8, seed: int64(seed), thorough: thorough, realTime: realTime})
		}
	}
	defer closeWs()
	known := knownFindings(id)
	var results []*HarnessResult
	nviol, nreplay := 0, 0
	var mism []string
	knownSeen := map[string]bool{}
	for i, h := range hs {
		fn := ld.fns[h.importPath()+"."+h.fn]
		if fn == nil {
			fail("no function %s", h.fn)
		}
		lim := h.quick
		if thorough {
			lim = h.thor
		}
		limit := time.Duration(lim) * time.Second
		left := budget - time.Since(t0)
		if share := left / time.Duration(len(hs)-i); limit > left-20*time.Second && limit > share {
			limit = share
		}
		// known findings do not stop the exploration
		if rt := h.opts["realtime"]; ws == nil || ws[0].opts.realTime != rt {
			newWs(rt)
		}
		res := RunHarness(ws, fn, h.fn, limit)
		results = append(results, res)
		if verbose {
			b, _ := json.MarshalIndent(res, "", " ")
			fmt.Println(string(b))
		} else {
			fmt.Printf("%s: %d paths (%d cut by assumptions), %d assertions, %d solver queries in %d ms, exhausted=%v, %d ms\n", h.fn, res.Paths, res.Infeasible, res.Asserts, res.Queries, res.SolverMs, res.Exhausted, res.WallMs)
		}
		for u, n := range res.Unsupported {
			s := fmt.Sprintf("%s: %d paths not modelled: %s", h.fn, n, u)
			notes = append(notes, s)
			fmt.Println("NOTE", s)
		}
		for _, r := range h.reach {
			if res.Reached[r] == 0 {
				s := fmt.Sprintf("%s: no path reached %q", h.fn, r)
				notes = append(notes, s)
				fmt.Println("NOTE", s)
			}
		}
		seenMsg := map[string]int{}
		for k := range res.Violations {
			v := &res.Violations[k]
			if what, ok := matchKnown(known, h, v); ok {
				if !knownSeen[what] {
					knownSeen[what] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
				}
				continue
			}
			if seenMsg[v.Kind+v.Msg] > 0 {
				continue
			}
			ok, rr := nat.confirm(h, v, thorough, seed)
			nreplay++
			if !ok {
				s := fmt.Sprintf("%s: counterexample (%s: %s) not reproduced natively (%s %s): not reported", h.fn, v.Kind, v.Msg, rr.kind, firstLine(rr.msg))
				notes = append(notes, s)
				fmt.Println("NOTE", s)
				if verbose {
					fmt.Println(rr.out, v.Stack)
					b, _ := json.Marshal(v.Inputs)
					fmt.Println(string(b))
				}
				continue
			}
			seenMsg[v.Kind+v.Msg]++
			nviol++
			path := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", id, nviol))
			b, _ := json.MarshalIndent(map[string]any{"property": id, "harness": h.fn, "thorough": thorough, "seed": seed, "kind": v.Kind, "msg": v.Msg, "stack": v.Stack, "inputs": v.Inputs, "native_kind": rr.kind, "native_msg": rr.msg, "native_output": rr.out,
				"rerun": "bash /verif/check.sh replay " + path}, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("  %s: %s\n%s  native: %s %s\n", v.Kind, v.Msg, indent(v.Stack), rr.kind, firstLine(rr.msg))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		// sample paths are re-run on the compiled code
		for k := range res.SampleIn {
			s := &res.SampleIn[k]
			rr := nat.run(h, s.Inputs, thorough, false, false, 0)
			nreplay++
			switch rr.kind {
			case "ok":
				if want := strings.Join(s.Reach, ","); !h.opts["stress"] && want != rr.msg {
					mism = append(mism, fmt.Sprintf("%s: path reaches %q natively, %q symbolically", h.fn, rr.msg, want))
				}
			case "assert", "panic", "timeout", "deadlock":
				v := &Violation{Kind: "native-" + rr.kind, Msg: rr.msg}
				if what, ok := matchKnown(known, h, v); ok {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
					continue
				}
				if r2 := nat.run(h, s.Inputs, thorough, false, false, 0); r2.kind != rr.kind {
					mism = append(mism, fmt.Sprintf("%s: %s natively, once", h.fn, rr.kind))
					continue
				}
				nviol++
				path := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", id, nviol))
				b, _ := json.MarshalIndent(map[string]any{"property": id, "harness": h.fn, "thorough": thorough, "kind": v.Kind, "msg": v.Msg, "inputs": s.Inputs, "native_output": rr.out}, "", " ")
				os.WriteFile(path, b, 0o644)
				fmt.Printf("  %s on the compiled code for inputs of a path the executor passed: %s\n", rr.kind, firstLine(rr.msg))
				if verbose {
					fmt.Println(rr.out)
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			default:
				mism = append(mism, fmt.Sprintf("%s: sample path: %s %s", h.fn, rr.kind, firstLine(rr.msg)))
				if verbose {
					fmt.Println(rr.out)
				}
			}
		}
	}
	for _, m := range mism {
		fmt.Println("NOTE sample mismatch", m)
	}
	var states, trans, queries, solverMs, asserts, fold, disch int64
	exhausted := true
	var samples []string
	funcs := map[string]bool{}
	var bounds []string
	for i, r := range results {
		states += r.Paths
		trans += r.Decisions
		queries += r.Queries
		solverMs += r.SolverMs
		asserts += r.Asserts
		fold += r.AssertsFold
		disch += r.AssertQ
		exhausted = exhausted && r.Exhausted
		for _, s := range r.Samples {
			samples = append(samples, r.Harness+": "+s)
		}
		for _, f := range r.RepoFuncs {
			funcs[f] = true
		}
		bounds = append(bounds, hs[i].fn+": "+strings.TrimSpace(hs[i].bound))
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	writeEv(map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": nreplay, "samples": samples,
		"exhaustive_within_bounds": exhausted, "rule": "states = symbolic execution paths, transitions = decided symbolic branches and choices",
		"assertions_evaluated": asserts, "assertions_by_simplification": fold, "assertions_by_solver": disch,
		"solver_queries": queries, "solver_ms": solverMs, "functions_encoded": fl, "bounds": bounds, "harnesses": results, "notes": notes, "sample_mismatches": mism,
	}, nviol)
	fmt.Printf("%s %s: %d paths, %d queries, %d ms solver time, %d native replays, %d violations, exhaustive within bounds: %v, %.1f s\n", id, tier, states, queries, solverMs, nreplay, nviol, exhausted, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func indent(s string) string {
	var sb strings.Builder
	for i, l := range strings.Split(strings.TrimSpace(s), "\n") {
		if i > 7 {
			break
		}
		sb.WriteString("    " + l + "\n")
	}
	return sb.String()
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	var r struct {
		Property, Harness, Kind string
		Thorough                bool
		Seed                    int
		Inputs                  []InputRec
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fail("%v", err)
	}
	hs, files := findHarnesses(r.Property)
	nat := newNative(hs, files)
	defer nat.close()
	for _, h := range hs {
		if h.fn == r.Harness {
			ok, rr := nat.confirm(h, &Violation{Kind: r.Kind, Inputs: r.Inputs}, r.Thorough, r.Seed)
			fmt.Printf("%s %s\n%s\n", rr.kind, rr.msg, rr.out)
			if ok {
				return 1
			}
			return 0
		}
	}
	fail("no harness %s", r.Harness)
	return 2
}

func main() {
	debug.SetGCPercent(200)
	if v := os.Getenv("GOSYM_REPO"); v != "" {
		repoDir = v
	}
	if len(os.Args) < 3 {
		fail("usage: gosym check <property> [harness] | replay <file>")
	}
	switch os.Args[1] {
	case "check":
		only := ""
		if len(os.Args) > 3 {
			only = os.Args[3]
		}
		os.Exit(check(os.Args[2], only, os.Getenv("GOSYM_V") != ""))
	case "replay":
		os.Exit(replay(os.Args[2]))
	}
	fail("unknown command %s", os.Args[1])
}
