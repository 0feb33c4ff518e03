package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"

	"verif/mc/hx"
)

// ---- C36: the command line tool

func init() {
	hx.Register(&hx.Check{
		ID: "C36", Level: "model_checking",
		Rule: "the recast command built from the tree and run in scratch directories: every command that writes x every kind of existing output x every sequence of answers up to the bound (with and without an end of line, from an empty and from a closed input); every world x configuration (generated, each field changed, fields left out) x mesh type, the written file compared byte for byte with the library's; every kind of invalid argument, input, configuration and output; the infos command on every file written, on every truncation and on changed bytes of the headers; after every run the whole directory is compared with what it should hold; non-trivial: the command is run",
		Assumptions: []string{
			"answers that begin with a blank, and a yes that ends without an end of line, are not judged as to their meaning; a yes is a line that starts with y or Y",
		},
		Spaces: c36Spaces,
	})
}

type cliRun struct {
	out  string
	code int
	hung bool
}

// cli runs the command in dir; in nil: closed input.
func cli(dir string, in *string, args ...string) cliRun {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	bin := os.Getenv("MC_RECAST")
	if bin == "" {
		panic("MC_RECAST is not set")
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	if in == nil {
		// a closed input: the shell runs the command without one
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `exec "$@" <&-`, "sh", bin}, args...)...)
	} else {
		cmd.Stdin = strings.NewReader(*in)
	}
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "GOTRACEBACK=single", "GOMAXPROCS=2"}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := cliRun{out: b.String()}
	if ctx.Err() != nil {
		r.hung = true
	}
	if err != nil {
		r.code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.code = x.ExitCode()
		}
	}
	return r
}

func (r cliRun) String() string {
	o := r.out
	if len(o) > 600 {
		o = o[:300] + " ... " + o[len(o)-300:]
	}
	return fmt.Sprintf("exit code %d, output %q", r.code, o)
}

// noCrash fails if the command crashed or did not end.
func (r cliRun) noCrash(e *hx.Env, what string) {
	if r.hung {
		e.Failf("endless", "%s: does not terminate", what)
	}
	if strings.Contains(r.out, "goroutine ") && strings.Contains(r.out, "panic") || strings.Contains(r.out, "fatal error:") || r.code == 2 && strings.Contains(r.out, "goroutine ") {
		e.Failf("crash", "%s: crashes: %v", what, r)
	}
}

func (r cliRun) success() bool { return strings.Contains(r.out, "success") && r.code == 0 }

// listing describes all files below dir.
func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "link to " + t
		case fi.IsDir():
			m[rel] = "directory"
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

// differences of two listings, leaving out one name.
func dirDiff(a, b map[string]string, except string) string {
	var d []string
	for k, v := range a {
		if k == except {
			continue
		}
		if w, ok := b[k]; !ok {
			d = append(d, k+" is gone")
		} else if w != v {
			d = append(d, k+" has changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok && k != except {
			d = append(d, k+" is new")
		}
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}

var cliDirs int

// inDir runs f in a new scratch directory with the standard input files.
func inDir(f func(dir string)) {
	cliDirs++
	dir, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f(dir)
}

func put(dir, name, content string) {
	if err := os.WriteFile(filepath.Join(dir, name), []byte(content), 0o644); err != nil {
		panic(err)
	}
}

func yamlOf(s recast.BuildSettings) string {
	v := reflect.ValueOf(s)
	var b strings.Builder
	for k := 0; k < v.NumField(); k++ {
		fmt.Fprintf(&b, "%s: %v\n", strings.ToLower(v.Type().Field(k).Name), v.Field(k).Interface())
	}
	return b.String()
}

// libraryFile is what the library writes for an input; "": no mesh.
func libraryFile(tiled bool, in *binput) (string, *detour.NavMesh) {
	b := newBuilder(tiled, recast.NewBuildContext(false))
	if err := b.load(in.obj); err != nil {
		return "", nil
	}
	b.SetSettings(in.set)
	nav, ok := b.Build()
	if !ok || nav == nil {
		return "", nil
	}
	var w bytes.Buffer
	if err := nav.ToWriter(&w); err != nil {
		return "", nil
	}
	return w.String(), nav
}

var typeNames = map[bool]string{false: "solo", true: "tile"}

func defaults(tiled bool) recast.BuildSettings {
	if tiled {
		return tilemesh.DefaultSettings()
	}
	return solomesh.DefaultSettings()
}

// ---- confirmation

var cliAnswers = []string{"y", "Y", "n", "N", "", "yes", "no", "x", "0"}

// expected outcome: 1 overwrites, 0 leaves alone, -1 either
func confirmation(in *string) int {
	if in == nil {
		return 0
	}
	rest := *in
	asked := 0
	for rest != "" {
		k := strings.IndexByte(rest, '\n')
		line, full := rest, false
		if k >= 0 {
			line, rest, full = rest[:k], rest[k+1:], true
		} else {
			rest = ""
		}
		switch {
		case line == "" && full, line != "" && (line[0] == 'n' || line[0] == 'N'):
			return 0
		case line != "" && (line[0] == 'y' || line[0] == 'Y'):
			if !full || asked > 0 {
				return -1
			}
			return 1
		}
		asked++
	}
	return 0
}

func answerInputs(depth int) []*string {
	var out []*string
	empty := ""
	out = append(out, nil, &empty)
	level := []string{""}
	for d := 0; d < depth; d++ {
		var next []string
		for _, p := range level {
			for _, a := range cliAnswers {
				full := p + a + "\n"
				next = append(next, full)
				out = append(out, &full)
				if a != "" {
					part := p + a
					out = append(out, &part)
				}
			}
		}
		level = next
	}
	for c := 1; c < 256; c++ { // every other single byte, and bytes before an answer
		if c == '\n' || strings.IndexByte("yYnNx0", byte(c)) >= 0 {
			continue
		}
		one := string([]byte{byte(c)}) + "\n"
		out = append(out, &one)
	}
	for _, s := range []string{" n\n", "\tn\n", "\r\n", "\r\ny\n", "ny\n", "nyes\n", "\n\ny\n", "?\n?\n?\n?\n?\n?\nn\n", "maybe\n", "oui\n", "\x00\n", strings.Repeat("x", 5000) + "\nn\n"} {
		s := s
		out = append(out, &s)
	}
	return out
}

type existing struct {
	name string
	make func(dir, out string)
	// file the output ends up in ("" the output itself)
	target string
	exists bool
	refuse bool // cannot be written
}

func existings() []existing {
	return []existing{
		{"no file", func(dir, out string) {}, "", false, false},
		{"text file", func(dir, out string) { put(dir, out, "precious\n") }, "", true, false},
		{"empty file", func(dir, out string) { put(dir, out, "") }, "", true, false},
		{"long file", func(dir, out string) { put(dir, out, strings.Repeat("0123456789", 20000)) }, "", true, false},
		{"link to a file", func(dir, out string) { put(dir, "other", "precious\n"); os.Symlink("other", filepath.Join(dir, out)) }, "other", true, false},
		{"directory", func(dir, out string) { os.Mkdir(filepath.Join(dir, out), 0o755) }, "", true, true},
	}
}

func checkConfirmation(e *hx.Env, in *binput, command string, tiled bool, ex existing, named bool, input *string) {
	inDir(func(dir string) {
		put(dir, "world.obj", in.obj)
		put(dir, "cfg.yml", yamlOf(in.set))
		out := map[string]string{"build": "navmesh.bin", "config": "recast.yml"}[command]
		if named {
			out = "out.dat"
		}
		args := []string{command, "--type", typeNames[tiled]}
		want := yamlOf(defaults(tiled))
		if command == "build" {
			args = append(args, "--config", "cfg.yml", "--input", "world.obj")
			want, _ = libraryFile(tiled, in)
		}
		if named {
			args = append(args, out)
		}
		ex.make(dir, out)
		before := listing(dir)
		r := cli(dir, input, args...)
		e.Step(1)
		show := "closed input"
		if input != nil {
			show = fmt.Sprintf("input %q", *input)
		}
		what := fmt.Sprintf("recast %s with %s at %s, %s", strings.Join(args, " "), ex.name, out, show)
		r.noCrash(e, what)
		after := listing(dir)
		file := out
		if ex.target != "" {
			file = ex.target
		}
		if d := dirDiff(before, after, file); d != "" {
			e.Failf("other-files", "%s: %s; %v", what, d, r)
		}
		verdict := 1
		if ex.exists {
			verdict = confirmation(input)
		}
		if ex.refuse && verdict != 0 {
			verdict = 0
		}
		kept := before[file] == after[file]
		if verdict == -1 {
			verdict = 1
			if kept {
				verdict = 0
			}
		}
		switch verdict {
		case 0:
			if !kept {
				e.Failf("overwritten", "%s: the file was changed without a yes; %v", what, r)
			}
			if strings.Contains(r.out, "success") {
				e.Failf("claims", "%s: reports success although nothing was written; %v", what, r)
			}
			e.Outcome("left alone")
		case 1:
			got, ok := after[file]
			if !ok || !strings.HasPrefix(got, "file ") {
				e.Failf("missing", "%s: no output; %v", what, r)
			}
			got = got[len("file "):]
			if command == "config" {
				sameSettings(e, what, got, defaults(tiled))
			} else if got != want {
				e.Failf("content", "%s: writes %d bytes that are not the %d bytes the library writes; %v", what, len(got), len(want), r)
			}
			if !r.success() {
				e.Failf("silent", "%s: succeeds without saying so; %v", what, r)
			}
			e.Outcome("written")
		}
		e.State(hx.H(command, tiled, ex.name, named, show, verdict))
	})
}

// sameSettings compares a configuration file with settings.
func sameSettings(e *hx.Env, what, got string, want recast.BuildSettings) {
	m := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(got), "\n") {
		p := strings.SplitN(l, ":", 2)
		if len(p) != 2 {
			e.Failf("config-text", "%s: odd line %q", what, l)
		}
		m[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
	}
	v := reflect.ValueOf(want)
	for k := 0; k < v.NumField(); k++ {
		name := strings.ToLower(v.Type().Field(k).Name)
		var f float64
		if _, err := fmt.Sscan(m[name], &f); err != nil {
			e.Failf("config-field", "%s: field %s: %q", what, name, m[name])
		}
		w := v.Field(k).Convert(reflect.TypeOf(float32(0))).Float()
		if float32(f) != float32(w) {
			e.Failf("config-value", "%s: field %s is %v, the default is %v", what, name, m[name], w)
		}
	}
}

// ---- builds

func cliWorlds() []*binput {
	var out []*binput
	for k, w := range buildWorlds() {
		// no volumes: the command cannot give any
		for i := range w.kinds {
			if w.kinds[i] == bWater {
				w.kinds[i] = bFloor0
			}
		}
		out = append(out, &binput{w, w.settings(), w.obj(), fmt.Sprintf("world %d", k)})
	}
	return out
}

func checkCLIBuild(e *hx.Env, in *binput, tiled bool, cfg string, what string) {
	inDir(func(dir string) {
		put(dir, "world.obj", in.obj)
		put(dir, "cfg.yml", cfg)
		before := listing(dir)
		none := ""
		r := cli(dir, &none, "build", "--type", typeNames[tiled], "--config", "cfg.yml", "--input", "world.obj", "out.bin")
		e.Step(1)
		r.noCrash(e, what)
		after := listing(dir)
		if d := dirDiff(before, after, "out.bin"); d != "" {
			e.Failf("other-files", "%s: %s; %v", what, d, r)
		}
		var want string
		var nav *detour.NavMesh
		if p := try(func() { want, nav = libraryFile(tiled, in) }); p != nil {
			e.Failf("library", "%s: the library crashes: %v", what, p)
		}
		got, ok := after["out.bin"]
		if want == "" {
			if ok {
				e.Failf("left-over", "%s: the library builds no mesh, the command leaves a file; %v", what, r)
			}
			if strings.Contains(r.out, "success") {
				e.Failf("claims", "%s: reports success although the library builds no mesh; %v", what, r)
			}
			e.Outcome("no mesh")
			return
		}
		if !ok {
			e.Failf("missing", "%s: no output; %v", what, r)
		}
		if got != "file "+want {
			e.Failf("content", "%s: writes %d bytes that are not the %d bytes the library writes; %v", what, len(got)-5, len(want), r)
		}
		if !r.success() {
			e.Failf("silent", "%s: succeeds without saying so; %v", what, r)
		}
		e.Outcome("mesh written")
		e.State(hx.H(got))
		checkInfos(e, dir, "out.bin", nav, tiled, what)
	})
}

// checkInfos: the infos command accepts a file and shows its parameters.
func checkInfos(e *hx.Env, dir, name string, nav *detour.NavMesh, tiled bool, what string) {
	none := ""
	before := listing(dir)
	r := cli(dir, &none, "infos", name)
	e.Step(1)
	r.noCrash(e, "infos after "+what)
	if d := dirDiff(before, listing(dir), ""); d != "" {
		e.Failf("other-files", "infos after %s: %s", what, d)
	}
	if r.code != 0 || !strings.Contains(r.out, "successfully loaded") {
		e.Failf("infos", "infos refuses a mesh the tool wrote (%s): %v", what, r)
	}
	k := strings.IndexByte(r.out, '{')
	if k < 0 {
		e.Failf("infos-text", "infos after %s: %v", what, r)
	}
	var p detour.NavMeshParams
	if err := json.Unmarshal([]byte(r.out[k:]), &p); err != nil || p != nav.Params {
		e.Failf("infos-params", "infos after %s: shows %+v (%v), the mesh has %+v", what, p, err, nav.Params)
	}
	other := typeNames[!tiled]
	if strings.Contains(r.out[:k], "'"+other+"'") {
		e.Failf("infos-type", "infos calls a %s mesh '%s': %v", typeNames[tiled], other, r)
	}
}

type cliCase struct {
	name string
	args []string
	prep func(dir string)
	// out is a file that must not appear
	out string
}

func c36Spaces(th bool) []hx.Space {
	var out []hx.Space
	ins := cliWorlds()
	exs := existings()
	depth := 2
	if th {
		depth = 3
	}
	answers := answerInputs(depth)
	cmds := []struct {
		name  string
		tiled bool
		named bool
	}{{"config", false, true}, {"config", true, false}, {"build", false, true}, {"build", true, false}}
	if th {
		cmds = append(cmds, cmds[0], cmds[1], cmds[2], cmds[3])
		for k := 4; k < 8; k++ {
			cmds[k].named = !cmds[k].named
		}
	}
	out = append(out, hx.Space{
		Name: "confirmation", N: hx.Prod(len(answers), len(exs), len(cmds)), Batch: 8,
		Bound: fmt.Sprintf("%d commands x %d kinds of existing output x every sequence of up to %d of %d answers, last one with or without end of line, every single byte, a dozen longer answers, empty and closed input", len(cmds), len(exs), depth, len(cliAnswers)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			a, x, c := answers[d.Next(len(answers))], exs[d.Next(len(exs))], cmds[d.Next(len(cmds))]
			checkConfirmation(e, ins[0], c.name, c.tiled, x, c.named, a)
			e.Trace()
		},
	})
	// builds: default configurations and every change of one field
	ch := settingChanges()
	out = append(out, hx.Space{
		Name: "builds", N: hx.Prod(len(ins), len(ch)+1, 2), Batch: 4,
		Bound: fmt.Sprintf("%d worlds x (generated default configuration, %d configurations) x one-shot/tiled, each read back with infos", len(ins), len(ch)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			in, c, tiled := *ins[d.Next(len(ins))], d.Next(len(ch)+1), d.Next(2) == 1
			e.Trace()
			if c < len(ch) {
				ch[c].f(&in.set)
				checkCLIBuild(e, &in, tiled, yamlOf(in.set), fmt.Sprintf("build of %s (%s), changed %s", in.txt, typeNames[tiled], ch[c].name))
				return
			}
			// the configuration file the tool generates
			in.set = defaults(tiled)
			var cfg string
			inDir(func(dir string) {
				none := ""
				r := cli(dir, &none, "config", "--type", typeNames[tiled], "c.yml")
				r.noCrash(e, "config")
				b, err := os.ReadFile(filepath.Join(dir, "c.yml"))
				if err != nil {
					e.Failf("missing", "config writes no file: %v", r)
				}
				cfg = string(b)
			})
			checkCLIBuild(e, &in, tiled, cfg, fmt.Sprintf("build of %s (%s), generated configuration", in.txt, typeNames[tiled]))
		},
	})
	// unusual configurations: fields left out, zero, negative
	vals := []string{"", "0", "-1", "1000", "0.001"}
	nf := reflect.TypeOf(recast.BuildSettings{}).NumField()
	out = append(out, hx.Space{
		Name: "unusual settings", N: hx.Prod(nf, len(vals), 2, 2), Batch: 2,
		Bound: fmt.Sprintf("every field of the configuration left out, 0, -1, 1000 and 0.001, 2 worlds, one-shot/tiled"),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			f, v, w, tiled := d.Next(nf), d.Next(len(vals)), d.Next(2), d.Next(2) == 1
			in := *ins[w]
			fv := reflect.ValueOf(&in.set).Elem().Field(f)
			name := strings.ToLower(reflect.TypeOf(in.set).Field(f).Name)
			if tooFine(name, vals[v]) {
				e.Outcome("not run: needs too much memory")
				return
			}
			var x float64
			fmt.Sscan("0"+vals[v], &x)
			if vals[v] == "-1" {
				x = -1
			}
			if fv.Kind() == reflect.Int32 {
				if x != float64(int(x)) {
					return
				}
				fv.SetInt(int64(x))
			} else {
				fv.SetFloat(x)
			}
			cfg := yamlOf(in.set)
			if vals[v] == "" {
				var l []string
				for _, s := range strings.Split(cfg, "\n") {
					if !strings.HasPrefix(s, name+":") {
						l = append(l, s)
					}
				}
				cfg = strings.Join(l, "\n")
			}
			checkCLIBuild(e, &in, tiled, cfg, fmt.Sprintf("build of %s (%s) with %s %q", in.txt, typeNames[tiled], name, vals[v]))
			e.Trace()
		},
	})
	bad := badCases(ins[0])
	out = append(out, hx.Space{
		Name: "failures", N: int64(len(bad) * 2), Batch: 2,
		Bound: fmt.Sprintf("%d kinds of invalid arguments, inputs, configurations and outputs, one-shot/tiled", len(bad)),
		Run: func(e *hx.Env, i int64) {
			c, tiled := bad[i/2], i%2 == 1
			inDir(func(dir string) {
				put(dir, "world.obj", ins[0].obj)
				put(dir, "cfg.yml", yamlOf(ins[0].set))
				if c.prep != nil {
					c.prep(dir)
				}
				before := listing(dir)
				yes := "y\n"
				var args []string
				for _, a := range c.args {
					args = append(args, strings.Replace(a, "TYPE", typeNames[tiled], 1))
				}
				r := cli(dir, &yes, args...)
				e.Step(1)
				what := fmt.Sprintf("recast %s (%s)", strings.Join(args, " "), c.name)
				r.noCrash(e, what)
				if strings.Contains(r.out, "success") {
					e.Failf("claims", "%s: reports success; %v", what, r)
				}
				if strings.TrimSpace(r.out) == "" {
					e.Failf("silent", "%s: fails silently", what)
				}
				if d := dirDiff(before, listing(dir), ""); d != "" {
					e.Failf("left-over", "%s: %s; %v", what, d, r)
				}
				e.State(hx.H(what))
				e.Trace()
				e.Outcome("failure reported")
			})
		},
	})
	// infos on damaged files
	var mesh [2]string
	var navs [2]*detour.NavMesh
	for k := range mesh {
		mesh[k], navs[k] = libraryFile(k == 1, ins[0])
	}
	step := 97
	if th {
		step = 13
	}
	cuts := [2][]int{}
	for k := range mesh {
		for n := 0; n < len(mesh[k]); n++ {
			if n < 200 || n%step == 0 || n > len(mesh[k])-20 {
				cuts[k] = append(cuts[k], n)
			}
		}
	}
	out = append(out, hx.Space{
		Name: "infos on damaged files", N: int64(len(cuts[0]) + len(cuts[1]) + 16), Batch: 16,
		Bound: fmt.Sprintf("a one-shot and a tiled mesh cut off after each of the first 200 and last 20 bytes and every %dth byte in between, and with each byte of the magic number and version changed", step),
		Run: func(e *hx.Env, i int64) {
			inDir(func(dir string) {
				var data, what string
				if n := int64(len(cuts[0]) + len(cuts[1])); i >= n {
					k := int(i-n) % 8
					m := []byte(mesh[(i-n)/8])
					m[k] ^= 0x20
					data, what = string(m), fmt.Sprintf("byte %d changed", k)
				} else if int(i) < len(cuts[0]) {
					data, what = mesh[0][:cuts[0][i]], fmt.Sprintf("one-shot mesh cut off after %d bytes", cuts[0][i])
				} else {
					c := cuts[1][int(i)-len(cuts[0])]
					data, what = mesh[1][:c], fmt.Sprintf("tiled mesh cut off after %d bytes", c)
				}
				put(dir, "m.bin", data)
				none := ""
				r := cli(dir, &none, "infos", "m.bin")
				e.Step(1)
				e.Trace()
				r.noCrash(e, "infos of a "+what)
				if r.code == 0 || strings.Contains(r.out, "successfully") {
					e.Failf("infos-accepts", "infos accepts a file with a %s: %v", what, r)
				}
				if d := listing(dir); d["m.bin"] != "file "+data {
					e.Failf("other-files", "infos changes a file with a %s", what)
				}
				e.State(uint64(i))
				e.Outcome("refused")
			})
		},
	})
	return out
}

// tooFine: settings that would need more memory than there is.
func tooFine(name, v string) bool {
	return (name == "cellsize" || name == "cellheight") && v == "0.001" || name == "agentradius" && v == "1000"
}

func badCases(in *binput) []cliCase {
	build := func(args ...string) []string { return append([]string{"build", "--type", "TYPE"}, args...) }
	std := []string{"--config", "cfg.yml", "--input", "world.obj"}
	with := func(extra ...string) []string { return build(append(append([]string{}, std...), extra...)...) }
	obj := func(text string) func(string) { return func(d string) { put(d, "bad.obj", text) } }
	yml := func(text string) func(string) { return func(d string) { put(d, "bad.yml", text) } }
	badObj := build("--config", "cfg.yml", "--input", "bad.obj", "out.bin")
	badYml := build("--config", "bad.yml", "--input", "world.obj", "out.bin")
	return []cliCase{
		{"no input given", build("--config", "cfg.yml", "out.bin"), nil, "out.bin"},
		{"input missing", build("--config", "cfg.yml", "--input", "none.obj", "out.bin"), nil, "out.bin"},
		{"input is a directory", build("--config", "cfg.yml", "--input", "d", "out.bin"), func(d string) { os.Mkdir(filepath.Join(d, "d"), 0o755) }, "out.bin"},
		{"input empty", badObj, obj(""), "out.bin"},
		{"input garbage", badObj, obj("\x00\x01\x02 garbage\n\nf f f\n"), "out.bin"},
		{"input without faces", badObj, obj("v 0 0 0\nv 1 0 0\nv 0 0 1\n"), "out.bin"},
		{"input without vertices", badObj, obj("f 1 2 3\n"), "out.bin"},
		{"face index too large", badObj, obj("v 0 0 0\nv 1 0 0\nv 0 0 1\nf 1 2 4\n"), "out.bin"},
		{"vertex not a number", badObj, obj("v 0 a 0\nv 1 0 0\nv 0 0 1\nf 1 2 3\n"), "out.bin"},
		{"default configuration missing", build("--input", "world.obj", "out.bin"), nil, "out.bin"},
		{"configuration missing", build("--config", "none.yml", "--input", "world.obj", "out.bin"), nil, "out.bin"},
		{"configuration is a directory", build("--config", "d", "--input", "world.obj", "out.bin"), func(d string) { os.Mkdir(filepath.Join(d, "d"), 0o755) }, "out.bin"},
		{"configuration empty", badYml, yml(""), "out.bin"},
		{"configuration garbage", badYml, yml("\x00{{:::\n"), "out.bin"},
		{"configuration is a list", badYml, yml("- 1\n- 2\n"), "out.bin"},
		{"configuration with text for a number", badYml, yml(strings.Replace(yamlOf(in.set), "cellsize: ", "cellsize: x", 1)), "out.bin"},
		{"configuration of a mesh file", badYml, func(d string) { m, _ := libraryFile(false, in); put(d, "bad.yml", m) }, "out.bin"},
		{"unknown type", []string{"build", "--type", "other", "--config", "cfg.yml", "--input", "world.obj", "out.bin"}, nil, "out.bin"},
		{"empty type", []string{"build", "--type", "", "--config", "cfg.yml", "--input", "world.obj", "out.bin"}, nil, "out.bin"},
		{"unknown type for config", []string{"config", "--type", "other", "out.yml"}, nil, "out.yml"},
		{"output in a missing directory", with("none/out.bin"), nil, ""},
		{"output below a file", with("world.obj/out.bin"), nil, ""},
		{"output is a directory", with("d"), func(d string) { os.Mkdir(filepath.Join(d, "d"), 0o755) }, ""},
		{"output cannot take the data", with("full"), func(d string) { os.Symlink("/dev/full", filepath.Join(d, "full")) }, ""},
		{"config in a missing directory", []string{"config", "none/out.yml"}, nil, ""},
		{"config onto a directory", []string{"config", "d"}, func(d string) { os.Mkdir(filepath.Join(d, "d"), 0o755) }, ""},
		{"config output cannot take the data", []string{"config", "--type", "TYPE", "full"}, func(d string) { os.Symlink("/dev/full", filepath.Join(d, "full")) }, ""},
		{"unknown command", []string{"destroy", "world.obj"}, nil, ""},
		{"unknown option", with("--force", "out.bin"), nil, "out.bin"},
		{"infos without a file", []string{"infos"}, nil, ""},
		{"infos of a missing file", []string{"infos", "none.bin"}, nil, ""},
		{"infos of a directory", []string{"infos", "."}, nil, ""},
		{"infos of a geometry file", []string{"infos", "world.obj"}, nil, ""},
		{"infos of an empty file", []string{"infos", "e"}, func(d string) { put(d, "e", "") }, ""},
	}
}
