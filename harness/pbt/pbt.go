// Package pbt is the small frame around pgregory.net/rapid that all checks
// share. A property is a generator of plain, JSON-serialisable cases and a
// function that runs one case against the real code and judges it. rapid owns
// every random choice and the shrinking; the frame counts what was generated,
// stops at a budget, and writes the shrunk case as a replay file that runs
// without rapid.
package pbt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what one case turned out to be.
type Ctx struct {
	mu         sync.Mutex
	classes    map[string]int
	nontrivial bool
}

// NewCtx is for a run that does not count.
func NewCtx() *Ctx { return &Ctx{classes: map[string]int{}} }

// Class counts a label once per call (and so may count several times per case).
func (c *Ctx) Class(label string) {
	c.mu.Lock()
	c.classes[label]++
	c.mu.Unlock()
}

// ClassIf is Class under a condition.
func (c *Ctx) ClassIf(cond bool, label string) {
	if cond {
		c.Class(label)
	}
}

// NonTrivial marks the case as one that exercises the property (see Rule).
func (c *Ctx) NonTrivial() {
	c.mu.Lock()
	c.nontrivial = true
	c.mu.Unlock()
}

// HarnessError is a failure of the machinery or the environment, never of the
// code under test; it ends the check with an error exit.
type HarnessError struct{ Err error }

func (e *HarnessError) Error() string { return "harness: " + e.Err.Error() }
func (e *HarnessError) Unwrap() error { return e.Err }

// Harnessf makes a HarnessError.
func Harnessf(f string, a ...any) error { return &HarnessError{fmt.Errorf(f, a...)} }

// TimeoutError is an answer that did not come within a very generous time. The
// case is run again from scratch before it counts.
type TimeoutError struct{ Err error }

func (e *TimeoutError) Error() string { return "timeout: " + e.Err.Error() }
func (e *TimeoutError) Unwrap() error { return e.Err }

// Timeoutf makes a TimeoutError.
func Timeoutf(f string, a ...any) error { return &TimeoutError{fmt.Errorf(f, a...)} }

// LateError is an answer that came, but later than it should; only three in a
// row count, on fresh processes.
type LateError struct{ Err error }

func (e *LateError) Error() string { return "late: " + e.Err.Error() }
func (e *LateError) Unwrap() error { return e.Err }

// Latef makes a LateError.
func Latef(f string, a ...any) error { return &LateError{fmt.Errorf(f, a...)} }

// Prop is one property.
type Prop[C any] struct {
	ID   string
	Rule string
	Gen  func(t *rapid.T) C
	Run  func(c C, ctx *Ctx) error
	// Fresh, if set, puts the environment back to a clean state after a failure.
	Fresh func()
	// Vary, if set, is told before each case a drawn number (0 among them) by
	// which the run chooses what the property says must not matter. It is kept
	// in the case as "_vary".
	Vary func(uint32)
}

// varied adds the number to the JSON of a case.
func varied(raw []byte, v uint32) []byte {
	if v == 0 || len(raw) < 2 || raw[0] != '{' {
		return raw
	}
	head := fmt.Sprintf(`{"_vary":%d`, v)
	if raw[1] != '}' {
		head += ","
	}
	return append([]byte(head), raw[1:]...)
}

func varyOf(raw []byte) uint32 {
	var v struct {
		Vary uint32 `json:"_vary"`
	}
	json.Unmarshal(raw, &v)
	return v.Vary
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

// Shard is what one test process reports to the driver.
type Shard struct {
	Property     string            `json:"property"`
	Rule         string            `json:"rule"`
	Evaluations  int               `json:"evaluations"`
	Skipped      int               `json:"skipped"`
	Retried      int               `json:"retried"`
	CorpusCases  int               `json:"corpus_cases"`
	Nontrivial   []string          `json:"nontrivial"` // hashes of distinct non-trivial cases
	Classes      map[string]int    `json:"classes"`
	Samples      []json.RawMessage `json:"samples"`
	Violation    *Replay           `json:"violation,omitempty"`
	HarnessError string            `json:"harness_error,omitempty"`
	WallS        float64           `json:"wall_s"`
}

func runOnce[C any](p Prop[C], c C, vary uint32, sh *Shard) (err error, ctx *Ctx) {
	ctx = &Ctx{classes: map[string]int{}}
	if p.Vary != nil {
		p.Vary(vary)
	}
	err = p.Run(c, ctx)
	for try := 1; try < 3; try++ {
		var te *TimeoutError
		var le *LateError
		if !errors.As(err, &le) && !(errors.As(err, &te) && try == 1) {
			break
		}
		// An answer that never came: once more, on fresh processes. Only two
		// timeouts in a row count.
		sh.Retried++
		if p.Fresh != nil {
			p.Fresh()
		}
		ctx = &Ctx{classes: map[string]int{}}
		err = p.Run(c, ctx)
	}
	if err != nil && p.Fresh != nil {
		p.Fresh()
	}
	return
}

// Check runs the property: a single replay (VP_REPLAY), or the saved corpus
// (VP_CORPUS, shard 0 only) followed by rapid's generated cases.
func Check[C any](t *testing.T, p Prop[C]) {
	start := time.Now()
	sh := &Shard{Property: p.ID, Rule: p.Rule, Classes: map[string]int{}}
	seen := map[string]bool{}
	budget := 300 * time.Second
	if s := os.Getenv("VP_BUDGET_S"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			t.Fatal(err)
		}
		budget = time.Duration(n) * time.Second
	}
	flush := func() {
		sh.WallS = time.Since(start).Seconds()
		for h := range seen {
			sh.Nontrivial = append(sh.Nontrivial, h)
		}
		sort.Strings(sh.Nontrivial)
		if out := os.Getenv("VP_OUT"); out != "" {
			b, _ := json.Marshal(sh)
			if err := os.WriteFile(out, b, 0o644); err != nil {
				t.Logf("cannot write %s: %v", out, err)
			}
		}
	}
	defer flush()

	account := func(raw []byte, ctx *Ctx) {
		sh.Evaluations++
		for k, v := range ctx.classes {
			sh.Classes[k] += v
		}
		if ctx.nontrivial {
			sum := sha256.Sum256(raw)
			h := hex.EncodeToString(sum[:8])
			if !seen[h] {
				seen[h] = true
				if len(sh.Samples) < 3 && len(raw) < 3000 {
					sh.Samples = append(sh.Samples, append([]byte(nil), raw...))
				}
			}
		}
	}
	fixed := func(path string) (stop bool) {
		b, err := os.ReadFile(path)
		if err != nil {
			sh.HarnessError = err.Error()
			t.Errorf("%v", err)
			return true
		}
		var rep Replay
		var c C
		if err = json.Unmarshal(b, &rep); err == nil {
			err = json.Unmarshal(rep.Case, &c)
		}
		if err != nil {
			sh.HarnessError = fmt.Sprintf("%s: %v", path, err)
			t.Errorf("%s: %v", path, err)
			return true
		}
		err, ctx := runOnce(p, c, varyOf(rep.Case), sh)
		var he *HarnessError
		if errors.As(err, &he) {
			sh.HarnessError = err.Error()
			t.Errorf("%v", err)
			return true
		}
		account(rep.Case, ctx)
		if err != nil {
			sh.Violation = &Replay{Property: p.ID, Error: err.Error(), Case: rep.Case}
			t.Errorf("%s: %v", path, err)
			return true
		}
		return false
	}

	if r := os.Getenv("VP_REPLAY"); r != "" {
		fixed(r)
		return
	}
	if dir := os.Getenv("VP_CORPUS"); dir != "" {
		files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			sh.CorpusCases++
			if fixed(f) {
				return
			}
		}
	}

	var last *Replay
	var harness error
	failed := false
	ok := t.Run("gen", func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			if harness != nil {
				return
			}
			if !failed && time.Since(start) > budget {
				sh.Skipped++
				return
			}
			c := p.Gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			// run exactly what a replay would run
			var c2 C
			if err := json.Unmarshal(raw, &c2); err != nil {
				panic(err)
			}
			vary := uint32(0)
			if p.Vary != nil && rapid.IntRange(0, 3).Draw(rt, "varied") > 0 {
				vary = rapid.Uint32().Draw(rt, "vary")
			}
			raw = varied(raw, vary)
			err, ctx := runOnce(p, c2, vary, sh)
			var he *HarnessError
			if errors.As(err, &he) {
				harness = err
				return
			}
			if !failed {
				account(raw, ctx)
			}
			if err != nil {
				failed = true
				last = &Replay{Property: p.ID, Error: err.Error(), Case: raw}
				rt.Fatalf("%v", err)
			}
		})
	})
	if harness != nil {
		sh.HarnessError = harness.Error()
		t.Errorf("%v", harness)
		return
	}
	if last != nil {
		sh.Violation = last
	} else if !ok {
		sh.HarnessError = "rapid failed without a failing case"
	}
}
