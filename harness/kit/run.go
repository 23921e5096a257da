// Package kit is the shared part of the verification harness: a thin layer over
// rapid which measures what was generated, plus helpers to build the minievm app.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// caseLimit is far above what any case takes; a case that reaches it hangs.
const caseLimit = 200 * time.Second

// Case collects what one generated case was.
type Case struct {
	trace      []string
	nontrivial bool
	labels     map[string]int
}

// Logf appends one line to the case's description (it is what distinguishes cases).
func (c *Case) Logf(format string, args ...any) {
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case as non-trivial by the rule of its test.
func (c *Case) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case as non-trivial when cond holds.
func (c *Case) NonTrivialIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Label counts one occurrence of a class of event.
func (c *Case) Label(l string) { c.labels[l]++ }

// Trace gives the case's description so far.
func (c *Case) Trace() string { return strings.Join(c.trace, "\n") }

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Digests     []string       `json:"digests"`
	Samples     []string       `json:"samples"`
	Labels      map[string]int `json:"labels"`
}

// Run checks prop on generated cases and writes the statistics of the run.
func Run(t *testing.T, rule string, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	st := &stats{Test: t.Name(), Rule: rule, Labels: map[string]int{}}
	seen := map[uint64]struct{}{}
	defer func() {
		path := os.Getenv("VERIF_STATS")
		if path == "" {
			bz, _ := json.Marshal(st.Labels)
			t.Logf("cases=%d nontrivial=%d distinct=%d labels=%s", st.Evaluations, st.NonTrivial, len(seen), bz)
			return
		}
		for d := range seen {
			st.Digests = append(st.Digests, fmt.Sprintf("%016x", d))
		}
		bz, err := json.Marshal(st)
		if err == nil {
			_ = os.WriteFile(path, bz, 0o644)
		}
	}()

	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{labels: map[string]int{}}
		done := false
		defer func() {
			st.Evaluations++
			for l, n := range c.labels {
				st.Labels[l] += n
			}
			if !done || !c.nontrivial {
				return
			}
			st.NonTrivial++
			h := fnv.New64a()
			_, _ = h.Write([]byte(c.Trace()))
			if _, ok := seen[h.Sum64()]; !ok {
				seen[h.Sum64()] = struct{}{}
				if len(st.Samples) < 2 {
					s := c.Trace()
					if len(s) > 4000 {
						s = s[:4000] + " ...(cut)"
					}
					st.Samples = append(st.Samples, s)
				}
			}
		}()
		w := time.AfterFunc(caseLimit, func() {
			fmt.Printf("VERIF-VIOLATION: a generated case did not finish within %s\n%s\n", caseLimit, c.Trace())
			os.Exit(1)
		})
		defer w.Stop()
		prop(rt, c)
		done = true
	})
}
