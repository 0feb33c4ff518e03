package checks

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"

	"verif/mc/hx"
)

// ---- C35: builds are deterministic and independent

func init() {
	hx.Register(&hx.Check{
		ID: "C35", Level: "model_checking",
		Rule: "histories: every sequence of builds up to the bound over a set of inputs (worlds x settings, each setting changed on its own) with one builder and one build context, and with several builders on one context; every result compared byte for byte with a fresh builder's, earlier results re-read at the end; interleavings: every pair of builds (and of a build with saving and loading a mesh) by separate builders, on the code instrumented with a scheduling point before every statement: one preemption at the first, second and last execution of every statement of the one build, the other build running in between; results compared with each build alone; non-trivial: the two inputs differ",
		Assumptions: []string{
			"a builder and a build context are used by one thread at a time",
			"a tile mesh builder reuses its navigation mesh: only its latest result is compared",
		},
		Spaces: c35Spaces,
	})
}

// binput is a world with the settings to build it with.
type binput struct {
	w   *bworld
	set recast.BuildSettings
	obj string
	txt string
}

// buildWorlds are the worlds of the histories: every setting matters in one of
// them.
func buildWorlds() []*bworld {
	std := bagent{10, 4, 1, 40}
	mk := func(w, h, B int, kinds ...int) *bworld {
		return &bworld{w: w, h: h, B: B, kinds: kinds, agent: std, set: baseSettings(0.3, 0.2)}
	}
	return []*bworld{
		mk(2, 1, 12, bFloor0, bRamp),
		mk(2, 1, 12, bBridge, bWater),
		mk(1, 2, 12, bPillar, bLow),
		mk(2, 2, 8, bFloor0, bFloor3, bFloor6, bHole),
		mk(1, 1, 14, bSteep),
	}
}

type settingChange struct {
	name string
	f    func(s *recast.BuildSettings)
}

func settingChanges() []settingChange {
	return []settingChange{
		{"none", func(s *recast.BuildSettings) {}},
		{"cell size", func(s *recast.BuildSettings) { s.CellSize *= 0.8 }},
		{"cell height", func(s *recast.BuildSettings) { s.CellHeight *= 0.7 }},
		{"agent height", func(s *recast.BuildSettings) { s.AgentHeight = 4.2 }},
		{"agent radius", func(s *recast.BuildSettings) { s.AgentRadius *= 3 }},
		{"agent climb", func(s *recast.BuildSettings) { s.AgentMaxClimb *= 0.5 }},
		{"agent slope", func(s *recast.BuildSettings) { s.AgentMaxSlope = 60 }},
		{"region size", func(s *recast.BuildSettings) { s.RegionMinSize = 13 }},
		{"merge size", func(s *recast.BuildSettings) { s.RegionMergeSize = 2 }},
		{"edge length", func(s *recast.BuildSettings) { s.EdgeMaxLen = 1 }},
		{"edge error", func(s *recast.BuildSettings) { s.EdgeMaxError = 0.3 }},
		{"polygon size", func(s *recast.BuildSettings) { s.VertsPerPoly = 3 }},
		{"detail distance", func(s *recast.BuildSettings) { s.DetailSampleDist = 2 }},
		{"detail error", func(s *recast.BuildSettings) { s.DetailSampleDist, s.DetailSampleMaxError = 2, 0.1 }},
		{"tile size", func(s *recast.BuildSettings) { s.TileSize = 9 }},
	}
}

func buildInputs(ws []*bworld, ch []settingChange) []*binput {
	var out []*binput
	for k, w := range ws {
		o := w.obj()
		for _, c := range ch {
			s := w.settings()
			c.f(&s)
			out = append(out, &binput{w, s, o, fmt.Sprintf("world %d, changed: %s", k, c.name)})
		}
	}
	return out
}

// builder is what both builders have in common.
type builder interface {
	SetSettings(recast.BuildSettings)
	InputGeom() *recast.InputGeom
	Build() (*detour.NavMesh, bool)
}

type anyBuilder struct {
	builder
	load func(o string) error
}

func newBuilder(tiled bool, ctx *recast.BuildContext) *anyBuilder {
	if tiled {
		b := tilemesh.New(ctx)
		return &anyBuilder{b, func(o string) error { return b.LoadGeometry(strings.NewReader(o)) }}
	}
	b := solomesh.New(ctx)
	return &anyBuilder{b, func(o string) error { return b.LoadGeometry(strings.NewReader(o)) }}
}

// give hands an input to a builder; loading the geometry only if asked to.
func (b *anyBuilder) give(in *binput, load, settings, settingsFirst bool) error {
	if settings && settingsFirst {
		b.SetSettings(in.set)
	}
	if load {
		if err := b.load(in.obj); err != nil {
			return err
		}
		in.w.volumes(b.InputGeom())
	}
	if settings && !settingsFirst {
		b.SetSettings(in.set)
	}
	return nil
}

// meshText is a mesh as text: its parameters and the tiles with their data.
func meshText(nav *detour.NavMesh, ok bool) string {
	if !ok || nav == nil {
		return "no mesh"
	}
	return fmt.Sprintf("%v %v %v %v %v\n", nav.Params, nav.Orig, nav.TileWidth, nav.TileHeight, nav.MaxTiles) + strings.Join(tileSet(nav), "\n")
}

func (b *anyBuilder) build() (txt string, nav *detour.NavMesh) {
	var ok bool
	if p := try(func() { nav, ok = b.Build() }); p != nil {
		return fmt.Sprintf("panic: %v", p), nil
	}
	return meshText(nav, ok), nav
}

func freshBuild(tiled bool, in *binput) string {
	b := newBuilder(tiled, recast.NewBuildContext(false))
	if err := b.give(in, true, true, true); err != nil {
		return err.Error()
	}
	t, _ := b.build()
	return t
}

type freshCache struct {
	mu sync.Mutex
	m  map[string]string
}

func (c *freshCache) get(tiled bool, in *binput) string {
	k := fmt.Sprint(tiled, in.txt)
	if s, ok := c.m[k]; ok {
		return s
	}
	s := freshBuild(tiled, in)
	c.m[k] = s
	return s
}

func c35Spaces(th bool) []hx.Space {
	ins := buildInputs(buildWorlds(), settingChanges())
	fresh := &freshCache{m: map[string]string{}}
	var out []hx.Space
	n := len(ins)
	nch := len(settingChanges())
	// one builder, every pair (triple) of inputs
	history := func(name string, list []int, depth int) hx.Space {
		return hx.Space{
			Name: name, N: hx.Prod(2, len(list)) * hx.Pow(len(list), depth-1), Batch: 16,
			Bound: fmt.Sprintf("every sequence of %d builds over %d inputs, one-shot and tiled builder, logging on, one builder", depth, len(list)),
			Run: func(e *hx.Env, i int64) {
				d := hx.NewDec(i)
				tiled := d.Next(2) == 1
				var seq []*binput
				for k := 0; k < depth; k++ {
					seq = append(seq, ins[list[d.Next(len(list))]])
				}
				buildHistory(e, fresh, tiled, seq, i)
			},
		}
	}
	all := make([]int, n)
	for k := range all {
		all[k] = k
	}
	out = append(out, history("builds by one builder", all, 2))
	var few []int
	for k := 0; k < n; k++ {
		if th || k%7 == 3 {
			if !th || k%2 == 0 {
				few = append(few, k)
			}
		}
	}
	out = append(out, history("longer histories", few, 3))
	// several builders on one context
	depth := 3
	if th {
		depth = 4
	}
	var some []int
	for k := range buildWorlds() {
		some = append(some, k*nch, k*nch+3*k+1)
	}
	out = append(out, hx.Space{
		Name: "builders on one context", N: hx.Pow(2*len(some), depth), Batch: 16,
		Bound: fmt.Sprintf("every sequence of %d builds over %d inputs x one-shot/tiled, each by a builder of its own (the builder made before the first build or right before its own), all on one context", depth, len(some)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			ctx := recast.NewBuildContext(true)
			early := i%2 == 0
			type job struct {
				tiled bool
				in    *binput
				b     *anyBuilder
				got   string
				nav   *detour.NavMesh
			}
			var jobs []*job
			for k := 0; k < depth; k++ {
				c := d.Next(2 * len(some))
				j := &job{tiled: c%2 == 1, in: ins[some[c/2]]}
				if early {
					j.b = newBuilder(j.tiled, ctx)
				}
				jobs = append(jobs, j)
			}
			for _, j := range jobs {
				if j.b == nil {
					j.b = newBuilder(j.tiled, ctx)
				}
				if err := j.b.give(j.in, true, true, false); err != nil {
					e.Failf("load", "%s: %v", j.in.txt, err)
				}
				j.got, j.nav = j.b.build()
				e.Step(1)
				if w := fresh.get(j.tiled, j.in); j.got != w {
					e.Failf("context", "tiled %v, %s, built after others on the same context, gives\n%s\non its own\n%s", j.tiled, j.in.txt, j.got, w)
				}
			}
			for _, j := range jobs {
				if j.nav != nil && meshText(j.nav, true) != j.got {
					e.Failf("result-changed", "the mesh of tiled %v, %s was changed by later builds of other builders", j.tiled, j.in.txt)
				}
			}
			e.Trace()
			e.State(uint64(i))
		},
	})
	out = append(out, concurrentBuilds(th, fresh))
	return out
}

// buildHistory builds a sequence of inputs with one builder.
func buildHistory(e *hx.Env, fresh *freshCache, tiled bool, seq []*binput, id int64) {
	b := newBuilder(tiled, recast.NewBuildContext(true))
	var navs []*detour.NavMesh
	var txt []string
	for k, in := range seq {
		load, set := true, true
		if k > 0 {
			// only what changes is given again
			load = in.w != seq[k-1].w || id%3 == 0
			set = in.set != seq[k-1].set || id%3 == 1
		}
		if err := b.give(in, load, set, k%2 == 0); err != nil {
			e.Failf("load", "%s: %v", in.txt, err)
		}
		got, nav := b.build()
		e.Step(1)
		want := fresh.get(tiled, in)
		if got != want {
			var h []string
			for _, p := range seq[:k+1] {
				h = append(h, p.txt)
			}
			e.Failf("history", "tiled %v: the last of the builds %q gives\n%s\na fresh builder\n%s", tiled, h, got, want)
		}
		navs, txt = append(navs, nav), append(txt, got)
	}
	for k := range navs {
		if navs[k] != nil && !tiled && meshText(navs[k], true) != txt[k] {
			e.Failf("result-changed", "the mesh of build %d (%s) was changed by later builds", k, seq[k].txt)
		}
	}
	e.State(uint64(id))
	if seq[0].txt != seq[len(seq)-1].txt {
		e.Trace()
	}
	e.Outcome("%d different results", distinct(txt))
	if e.WantSample() {
		e.Sample("tiled %v, %s then %s: same as fresh builds", tiled, seq[0].txt, seq[len(seq)-1].txt)
	}
}

func distinct(s []string) int {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return len(m)
}

// ---- concurrent builds

// activity is something a thread does; it returns its observable result.
type activity struct {
	name string
	prep func() func() string
}

func concurrentBuilds(th bool, fresh *freshCache) hx.Space {
	std := bagent{4, 2, 1, 50}
	mk := func(w, h, B int, detail float32, kinds ...int) *binput {
		x := &bworld{w: w, h: h, B: B, kinds: kinds, agent: std, set: baseSettings(0.3, 0.2)}
		x.set.DetailSampleDist = detail
		x.set.TileSize = 8
		s := x.settings()
		return &binput{x, s, x.obj(), fmt.Sprint(kinds)}
	}
	ins := []*binput{
		mk(1, 1, 6, 0, bFloor0),
		mk(2, 1, 5, 1, bRamp, bWater),
	}
	if th {
		ins = append(ins, mk(1, 2, 7, 1, bPillar, bBridge))
	}
	var acts []activity
	for _, in := range ins {
		in := in
		for _, tiled := range []bool{false, true} {
			tiled := tiled
			acts = append(acts, activity{fmt.Sprintf("build (tiled %v, blocks %s)", tiled, in.txt), func() func() string {
				return func() string {
					b := newBuilder(tiled, recast.NewBuildContext(true))
					if err := b.give(in, true, true, false); err != nil {
						return err.Error()
					}
					t, _ := b.build()
					return t
				}
			}})
		}
	}
	acts = append(acts, activity{"save and load", func() func() string {
		b := newBuilder(true, recast.NewBuildContext(false))
		b.give(ins[1], true, true, false)
		_, nav := b.build()
		return func() string {
			var w bytes.Buffer
			if err := nav.ToWriter(&w); err != nil {
				return err.Error()
			}
			m, err := detour.Decode(bytes.NewReader(w.Bytes()))
			if err != nil {
				return err.Error()
			}
			return meshText(m, true) + fmt.Sprintf(" %x", hx.HB(w.Bytes()))
		}
	}})
	return hx.Space{
		Name: "concurrent builds", N: hx.Prod(len(acts), len(acts), schedParts), Batch: 1,
		Bound: fmt.Sprintf("every ordered pair of %d activities (builds of %d worlds, one-shot and tiled; saving and loading), one preemption at the first, second and last execution of every statement of the first", len(acts), len(ins)),
		Run: func(e *hx.Env, i int64) {
			d := hx.NewDec(i)
			a, b, part := acts[d.Next(len(acts))], acts[d.Next(len(acts))], d.Next(schedParts)
			concurrentPair(e, a, b, part)
		},
	}
}

const schedParts = 8

func concurrentPair(e *hx.Env, a, b activity, part int) {
	if setPoint == nil {
		panic("built without scheduling points")
	}
	fa, fb := a.prep(), b.prep()
	wa, wb := fa(), fb()
	// when each statement of a is executed
	var first, second, last []int
	where := map[int]int{}
	n := 0
	fa = a.prep()
	setPoint(func(id int) {
		k, ok := where[id]
		if !ok {
			k = len(first)
			where[id] = k
			first, second, last = append(first, n), append(second, -1), append(last, -1)
		} else if second[k] < 0 {
			second[k] = n
		} else {
			last[k] = n
		}
		n++
	})
	fa()
	setPoint(nil)
	if n == 0 {
		e.Failf("uninstrumented", "no scheduling points in %s", a.name)
	}
	at := map[int]bool{}
	for k := range first {
		at[first[k]] = true
		at[second[k]] = true
		at[last[k]] = true
	}
	delete(at, -1)
	wait := time.Second
	count := 0
	for k := 0; k < n; k++ {
		if !at[k] {
			continue
		}
		count++
		if count%schedParts != part {
			continue
		}
		fa, fb := a.prep(), b.prep()
		var ra, rb string
		if _, ok := interleave([]int{k}, wait, func() { ra = protect(fa) }, func() { rb = protect(fb) }); !ok {
			wait = 5 * time.Millisecond
			e.Outcome("one waits for the other")
		}
		e.Step(1)
		e.Eval(1)
		e.State(hx.H(a.name, b.name, k))
		if ra != wa {
			e.Failf("schedule", "%s, interrupted by %s after %d of %d statements, gives\n%s\nalone\n%s", a.name, b.name, k, n, ra, wa)
		}
		if rb != wb {
			e.Failf("schedule", "%s, running within %s (after %d of %d statements of it), gives\n%s\nalone\n%s", b.name, a.name, k, n, rb, wb)
		}
	}
	e.Trace()
	e.Outcome("all schedules agree")
	if e.WantSample() {
		e.Sample("%s with %s: %d schedules (part %d of %d), %d statements executed", a.name, b.name, count, part, schedParts, n)
	}
}

func protect(f func() string) (s string) {
	if p := try(func() { s = f() }); p != nil {
		return fmt.Sprintf("panic: %v", p)
	}
	return s
}
