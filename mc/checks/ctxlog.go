package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/arl/go-detour/recast"

	"verif/mc/hx"
)

// ---- C39: build log and timers

const logCap = 1000

// ctxModel is what a build context should hold.
type ctxModel struct {
	log, timer bool
	msgs       []string
	t          [2]timerModel
}

type timerModel struct {
	running  bool
	from, to time.Time // started between these times
	timed    bool
	min, max time.Duration // accumulated between these
	free     bool          // used in a way that is not specified
}

var ctxTimers = [2]recast.TimerLabel{recast.TimerTotal, recast.TimerMergePolyMeshDetail}

var ctxOps = []string{"EnableLog(true)", "EnableLog(false)", "EnableTimer(true)", "EnableTimer(false)", "Progressf", "Warningf", "Errorf", "ResetLog", "ResetTimers", "StartTimer(0)", "StartTimer(1)", "StopTimer(0)", "StopTimer(1)"}

func (m *ctxModel) apply(ctx *recast.BuildContext, op, step int) {
	add := func(s string) {
		if m.log && len(m.msgs) < logCap {
			m.msgs = append(m.msgs, s)
		}
	}
	switch op {
	case 0, 1:
		ctx.EnableLog(op == 0)
		m.log = op == 0
	case 2, 3:
		ctx.EnableTimer(op == 2)
		m.timer = op == 2
	case 4:
		ctx.Progressf("step %d of %s: 100%%", step, "it")
		add(fmt.Sprintf("PROG step %d of it: 100%%", step))
	case 5:
		ctx.Warningf("%d", step)
		add(fmt.Sprintf("WARN %d", step))
	case 6:
		ctx.Errorf("bad %v", errors.New(fmt.Sprint("x", step)))
		add(fmt.Sprintf("ERR bad x%d", step))
	case 7:
		ctx.ResetLog()
		// whether this is in effect while the log is disabled is not said
		if m.log || ctx.LogCount() == 0 {
			m.msgs = m.msgs[:0]
		}
	case 8:
		ctx.ResetTimers()
		for k := range m.t {
			if m.timer {
				m.t[k] = timerModel{}
			} else {
				m.t[k].free = true
			}
		}
	case 9, 10:
		t := &m.t[op-9]
		from := time.Now()
		ctx.StartTimer(ctxTimers[op-9])
		if m.timer {
			if t.running {
				t.free = true
			}
			t.running, t.from, t.to = true, from, time.Now()
		}
	case 11, 12:
		t := &m.t[op-11]
		from := time.Now()
		ctx.StopTimer(ctxTimers[op-11])
		switch {
		case m.timer && t.running:
			t.min += from.Sub(t.to)
			t.max += time.Since(t.from)
			t.running, t.timed = false, true
		case m.timer || t.running:
			t.free = true // stopped without having been started, or while disabled
		}
	}
}

func (m *ctxModel) compare(e *hx.Env, ctx *recast.BuildContext, what func() string) {
	if n := ctx.LogCount(); n != len(m.msgs) {
		e.Failf("count", "%s: %d log entries, want %d", what(), n, len(m.msgs))
	}
	for i, s := range m.msgs {
		if g := ctx.LogText(int32(i)); g != s {
			e.Failf("text", "%s: log entry %d is %q, want %q", what(), i, g, s)
		}
	}
	var buf bytes.Buffer
	ctx.DumpLog(&buf, "head %d%%", 3)
	want := "head 3%\n" + strings.Join(m.msgs, "\n")
	if len(m.msgs) > 0 {
		want += "\n"
	}
	if buf.String() != want {
		e.Failf("dump", "%s: the log dumped is %q, want %q", what(), buf.String(), want)
	}
	for k := range m.t {
		t, g := &m.t[k], ctx.AccumulatedTime(ctxTimers[k])
		switch {
		case !m.timer:
			if g != -1 {
				e.Failf("timer-disabled", "%s: timers are disabled, but timer %d shows %d", what(), k, g)
			}
		case t.free:
		case !t.timed && !t.running:
			if g != -1 {
				e.Failf("timer-unused", "%s: timer %d was never started, but shows %d", what(), k, g)
			}
		case !t.timed: // started for the first time and not stopped yet
			if g > 0 {
				e.Failf("timer", "%s: timer %d shows %v before it is stopped", what(), k, g)
			}
		case g < t.min || g > t.max:
			e.Failf("timer", "%s: timer %d shows %v, it ran for %v to %v", what(), k, g, t.min, t.max)
		}
	}
	if g := ctx.AccumulatedTime(recast.TimerRasterizeTriangles); g != -1 {
		e.Failf("timer-unused", "%s: a timer nobody started shows %d", what(), g)
	}
}

func init() {
	hx.Register(&hx.Check{
		ID: "C39", Level: "model_checking",
		Rule: "every sequence up to the bound of the operations of a build context (logging and timers switched on and off, an entry of each category, clearing, two timers started and stopped), from both initial states, judged after every operation against a list of entries and, for each timer, the interval its time lies in; every mix of categories around the capacity of the log; every build input with the log and the timers on, off and full: same result, an error in the log exactly when the build fails; non-trivial: every case",
		Assumptions: []string{
			"starting a timer that runs, stopping one that does not, stopping and resetting while timers are disabled, and clearing a disabled log are not specified",
		},
		Spaces: func(th bool) []hx.Space {
			depth := 5
			if th {
				depth = 6
			}
			nops := len(ctxOps)
			ins := ctxBuildInputs(th)
			return []hx.Space{
				{Name: "operations", N: 2 * hx.Pow(nops, depth), Bound: fmt.Sprintf("every sequence of %d operations of %d kinds, both initial states", depth, nops),
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						on := d.Next(2) == 1
						ctx := recast.NewBuildContext(on)
						m := &ctxModel{log: on, timer: on}
						var done []string
						what := func() string { return fmt.Sprintf("NewBuildContext(%v) %s", on, strings.Join(done, " ")) }
						m.compare(e, ctx, what)
						for s := 0; s < depth; s++ {
							op := d.Next(nops)
							done = append(done, ctxOps[op])
							m.apply(ctx, op, s)
							m.compare(e, ctx, what)
							e.Step(1)
							e.State(hx.H(m.log, m.timer, len(m.msgs), m.t[0].running, m.t[0].timed, m.t[1].running, m.t[1].timed))
						}
						e.Eval(depth)
						e.Outcome("%d entries", len(m.msgs))
						e.Trace()
					}},
				{Name: "capacity", N: 3 * 3 * 3 * 6, Batch: 4, Bound: "998 to 1003 entries in cycles of three categories each",
					Run: func(e *hx.Env, i int64) {
						d := hx.NewDec(i)
						cat := [3]int{4 + d.Next(3), 4 + d.Next(3), 4 + d.Next(3)}
						n := 998 + d.Next(6)
						ctx := recast.NewBuildContext(true)
						m := &ctxModel{log: true, timer: true}
						for k := 0; k < n; k++ {
							m.apply(ctx, cat[k%3], k)
							e.Step(1)
						}
						what := func() string { return fmt.Sprintf("%d entries", n) }
						m.compare(e, ctx, what)
						m.apply(ctx, 7, 0)
						m.apply(ctx, cat[0], 0)
						m.compare(e, ctx, func() string { return fmt.Sprintf("%d entries, cleared, one entry", n) })
						e.Eval(2)
						e.State(hx.H("cap", i))
						e.Trace()
					}},
				{Name: "builds", N: int64(len(ins)) * 2, Batch: 2, Bound: fmt.Sprintf("%d inputs, good and bad, both builders; log on/off, timers on/off, log empty, nearly full, full", len(ins)),
					Run: func(e *hx.Env, i int64) { ctxBuild(e, ins[i/2], i%2 == 1) }},
			}
		},
	})
}

// ctxInput is a build input, possibly one that cannot be built.
type ctxInput struct {
	*binput
	bad bool
}

func ctxBuildInputs(th bool) (out []*ctxInput) {
	ws := buildWorlds()
	ch := settingChanges()
	if !th {
		ch = append(ch[:1:1], ch[len(ch)-4:]...)
	}
	for _, in := range buildInputs(ws, ch) {
		out = append(out, &ctxInput{in, false})
	}
	for _, c := range []settingChange{
		{"no cell size", func(s *recast.BuildSettings) { s.CellSize = 0 }},
		{"no cell height", func(s *recast.BuildSettings) { s.CellHeight = 0 }},
		{"no polygon size", func(s *recast.BuildSettings) { s.VertsPerPoly = 0 }},
		{"polygon size", func(s *recast.BuildSettings) { s.VertsPerPoly = 7 }},
	} {
		for _, in := range buildInputs(ws[:1], []settingChange{c}) {
			out = append(out, &ctxInput{in, true})
		}
	}
	return
}

func ctxBuild(e *hx.Env, in *ctxInput, tiled bool) {
	want := freshBuild(tiled, in.binput)
	if strings.HasPrefix(want, "panic") {
		e.Skip("cannot be built")
	}
	for k := 0; k < 2*2*3; k++ {
		log, timer, fill := k%2 == 1, k/2%2 == 1, []int{0, logCap - 1, logCap}[k/4]
		ctx := recast.NewBuildContext(true)
		for j := 0; j < fill; j++ {
			ctx.Warningf("%d", j)
		}
		ctx.EnableLog(log)
		ctx.EnableTimer(timer)
		b := newBuilder(tiled, ctx)
		if err := b.give(in.binput, true, true, true); err != nil {
			e.Failf("give", "%s: %v", in.txt, err)
		}
		begin := time.Now()
		var got string
		got, _ = b.build()
		took := time.Since(begin)
		e.Step(1)
		e.Eval(1)
		what := fmt.Sprintf("%s (tiled %v, log %v, timers %v, %d entries before)", in.txt, tiled, log, timer, fill)
		if got != want {
			e.Failf("influence", "%s: the result differs from that without log and timers", what)
		}
		n := ctx.LogCount()
		if !log && n != fill {
			e.Failf("disabled", "%s: %d entries in the disabled log", what, n)
		}
		if n > logCap {
			e.Failf("full", "%s: %d entries", what, n)
		}
		errs := 0
		for j := 0; j < n; j++ {
			t := ctx.LogText(int32(j))
			if strings.HasPrefix(t, "ERR ") {
				errs++
			}
			if !strings.HasPrefix(t, "ERR ") && !strings.HasPrefix(t, "WARN ") && !strings.HasPrefix(t, "PROG ") {
				e.Failf("category", "%s: entry %d is %q", what, j, t)
			}
		}
		if log && n < logCap && (want == "no mesh") && errs == 0 {
			e.Failf("silent", "%s: the build fails, but no error is logged", what)
		}
		if log && want != "no mesh" && errs > 0 && !tiled {
			e.Failf("error", "%s: the build succeeds, but an error is logged", what)
		}
		for l := recast.TimerTotal; l <= recast.TimerMergePolyMeshDetail; l++ {
			if g := ctx.AccumulatedTime(recast.TimerLabel(l)); g < -1 || g > took {
				e.Failf("time", "%s: timer %d shows %v, the build took %v", what, l, g, took)
			} else if !timer && g != -1 {
				e.Failf("timer-disabled", "%s: timers are disabled, but timer %d shows %v", what, l, g)
			}
		}
	}
	e.Outcome("mesh %v", want != "no mesh")
	e.State(hx.H(in.txt, tiled))
	e.Trace()
}
