// Command vsym decides properties of /repo by symbolic execution of its SSA form with SMT solvers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	debug   bool
	tier    = "quick"
	repoDir = "/repo"
)

const modPath = "github.com/pa-m/sklearn"

type knownFinding struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"assertion"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	verif := flag.String("verif", "/verif", "verif dir")
	only := flag.String("only", "", "run only harnesses with this prefix")
	budget := flag.Int("budget", 0, "seconds")
	workers := flag.Int("workers", 8, "workers")
	replay := flag.String("replay", "", "replay a counterexample file")
	flag.StringVar(&repoDir, "repo", repoDir, "tree to check (registered checks use the default)")
	flag.StringVar(&tier, "tier", "quick", "quick|thorough")
	flag.BoolVar(&debug, "debug", false, "debug")
	flag.Parse()
	t0 := time.Now()
	os.Exit(run(*prop, *verif, *only, *budget, *workers, *replay, t0))
}

type overlayT struct {
	Replace map[string]string
}

func run(prop, verif, only string, budget, workers int, replay string, t0 time.Time) int {
	dir, err := os.MkdirTemp("", "vsym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	id := strings.ToLower(prop)
	ov := overlayT{Replace: map[string]string{repoDir + "/vp/vp.go": verif + "/vp/vp.go"}}
	content := map[string][]byte{}
	add := func(dst, src string) {
		b, err := os.ReadFile(src)
		if err == nil {
			content[dst] = b
			ov.Replace[dst] = src
		}
	}
	add(repoDir+"/vp/vp.go", verif+"/vp/vp.go")
	hfiles, _ := filepath.Glob(filepath.Join(verif, "harness", id, "*.go"))
	for _, f := range hfiles {
		add(repoDir+"/vph/"+id+"/"+filepath.Base(f), f)
	}
	// shared helpers
	sf, _ := filepath.Glob(filepath.Join(verif, "harness", "hutil", "*.go"))
	for _, f := range sf {
		add(repoDir+"/vph/hutil/"+filepath.Base(f), f)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, BuildFlags: []string{"-tags=noasm,safe,appengine"}, Overlay: content, Env: os.Environ()}
	pk, err := packages.Load(cfg, "./vph/"+id, "errors")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return writeBroken(prop, verif, "load: "+err.Error(), t0)
	}
	if n := packages.PrintErrors(pk); n > 0 {
		return writeBroken(prop, verif, "the tree does not type-check with the harness", t0)
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, fset: prog.Fset}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	hp := P.pkgs[modPath+"/vph/"+id]
	var names []string
	for n, mem := range hp.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, "H") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	// native driver
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"flag\"\n\t\"fmt\"\n\t\"os\"\n\t\"runtime/debug\"\n\n\th %q\n\t%q\n)\n\nfunc main() {\n\tname := flag.String(\"harness\", \"\", \"\")\n\tin := flag.String(\"inputs\", \"\", \"\")\n\ttier := flag.String(\"tier\", \"\", \"\")\n\tobs := flag.Bool(\"obs\", false, \"\")\n\tflag.Parse()\n\tdebug.SetMaxStack(256 << 20)\n\tvp.Load(*in, *tier, *obs)\n\tfs := map[string]func(){\n", modPath+"/vph/"+id, modPath+"/vp")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t}\n\tf, ok := fs[*name]\n\tif !ok {\n\t\tfmt.Println(\"no harness\", *name)\n\t\tos.Exit(5)\n\t}\n\tf()\n\tfmt.Println(\"VP-OK\")\n}\n")
	mainFile := filepath.Join(dir, "main.go")
	os.WriteFile(mainFile, []byte(sb.String()), 0o644)
	ov.Replace[repoDir+"/vph/cmd/main.go"] = mainFile
	ovb, _ := json.Marshal(ov)
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ovb, 0o644)
	nat := &Native{dir: dir, overlay: ovf}

	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ce := &Counterexample{}
		if err := json.Unmarshal(b, ce); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if nat.replay(ce) {
			fmt.Println("reproduced:", ce.Native)
			return 1
		}
		fmt.Println("not reproduced:", ce.Native)
		return 0
	}

	if budget == 0 {
		budget = 150
		if tier == "thorough" {
			budget = 2400
		}
	}
	ex := &Explorer{P: P, nat: nat, prop: prop, workers: workers, seed: 1, deadline: time.Now().Add(time.Duration(budget) * time.Second), valCh: make(chan *valJob, 4096)}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &ex.seed)
	}
	ex.known = loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	for _, n := range names {
		if only != "" && !strings.HasPrefix(n, only) {
			continue
		}
		if strings.HasPrefix(n, "HX") && tier != "thorough" && only == "" {
			continue // thorough-only harness
		}
		ex.hs = append(ex.hs, newHarness(hp.Func(n), len(ex.hs)))
	}
	go nat.build()
	for i := 0; i < 4; i++ {
		go ex.validator()
	}
	ex.run()
	ex.valWg.Wait()
	return ex.report(verif, only, t0)
}

func loadKnown(f string) []knownFinding {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}
