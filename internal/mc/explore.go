// Package mc is a small explicit-state model checking engine. A space is a
// nondeterministic program: it asks the engine to Choose, and the engine runs
// it again and again until every sequence of choices has been taken. Nothing
// is sampled; a space is either explored completely or reported as cut off.
package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Space is one bounded set of behaviours that is explored exhaustively.
type Space struct {
	Name string
	// Bounds says in words what is enumerated.
	Bounds string
	// Run explores one leaf of the choice tree.
	Run func(c *Ctx)
	// Single spaces are not divided between the workers.
	Single bool
	// Thorough spaces only run in the thorough tier.
	Thorough bool
	// Quick spaces only run in the quick tier.
	Quick bool
}

// Property is a check: a set of spaces that together decide one property.
type Property struct {
	ID          string
	Technique   string
	Level       string
	LevelNote   string
	Assumptions []string
	Spaces      func(tier string) []Space
	// External, when set, runs the check instead of the spaces.
	External func(run *Runner) Result
	// CaseTimeout bounds one leaf. It is a watchdog, not a property.
	CaseTimeout time.Duration
	// Workers limits how many worker processes are used.
	Workers int
	// NoMemLimit leaves the address space unlimited, which the race detector
	// needs.
	NoMemLimit bool
}

// Violation is a counterexample.
type Violation struct {
	Property string `json:"property"`
	Space    string `json:"space"`
	Choices  []int  `json:"choices"`
	Key      string `json:"key,omitempty"`
	What     string `json:"what"`
	Tier     string `json:"tier"`
	Crash    bool   `json:"crash,omitempty"`
}

// SpaceStats counts what was explored of one space.
type SpaceStats struct {
	Name        string   `json:"name"`
	Bounds      string   `json:"bounds"`
	Leaves      int64    `json:"executions"`
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Traces      int64    `json:"traces_validated_against_impl"`
	Complete    bool     `json:"complete"`
	Seconds     float64  `json:"seconds"`
	Samples     []string `json:"-"`
	MaxChoices  int      `json:"longest_choice_sequence"`
}

// Result is what one worker, or the whole check, found.
type Result struct {
	Spaces     []*SpaceStats          `json:"spaces"`
	Samples    map[string][]string    `json:"samples"`
	Violations []Violation            `json:"violations"`
	Known      map[string]bool        `json:"known"`
	Extra      map[string]interface{} `json:"extra,omitempty"`
}

type pruned struct{}
type failed struct{}

// Ctx is handed to the program of a space.
type Ctx struct {
	Tier  string
	space *Space
	prop  string

	choices []int
	limits  []int
	pos     int

	shard, nshard int
	counter       int
	mine          bool

	stats *SpaceStats
	known map[string]bool
	hit   map[string]bool
	slot  *Slot

	violations []Violation
	replay     bool
	incomplete bool
	deadline   time.Time
	onFail     func(msg string)
}

// Thorough tells whether the thorough tier is running.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Replaying tells whether a single stored counterexample is being replayed.
func (c *Ctx) Replaying() bool { return c.replay }

// Choose returns a number in [0, n). Every number is explored.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic(pruned{})
	}
	if c.pos == len(c.choices) {
		c.choices = append(c.choices, 0)
		c.limits = append(c.limits, n)
	}
	if c.limits[c.pos] == 0 {
		c.limits[c.pos] = n
	}
	if c.limits[c.pos] != n {
		panic(fmt.Sprintf("nondeterministic space %s: choice %d had %d alternatives, now %d", c.space.Name, c.pos, c.limits[c.pos], n))
	}
	v := c.choices[c.pos]
	c.pos++
	return v
}

// Bool is a choice between false and true.
func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

// Prune abandons this branch: it is not part of the space.
func (c *Ctx) Prune() { panic(pruned{}) }

// Mine divides the space between workers. It must be called once per leaf; what
// has been chosen so far decides which worker explores the rest of the branch.
func (c *Ctx) Mine() {
	if c.mine || c.space.Single || c.replay {
		c.mine = true
		c.publish()
		return
	}
	// The counter advances when the choice prefix at this point is new.
	key := c.pos
	fresh := c.counter == 0 || c.lastKey(key)
	if fresh {
		c.counter++
	}
	c.remember(key)
	if (c.counter-1)%c.nshard != c.shard {
		panic(pruned{})
	}
	c.mine = true
	c.publish()
}

var lastPrefix = map[*Ctx][]int{}

func (c *Ctx) lastKey(n int) bool {
	p := lastPrefix[c]
	if len(p) != n {
		return true
	}
	for i := range p {
		if p[i] != c.choices[i] {
			return true
		}
	}
	return false
}

func (c *Ctx) remember(n int) {
	lastPrefix[c] = append(lastPrefix[c][:0], c.choices[:n]...)
}

func (c *Ctx) publish() {
	if c.slot != nil {
		c.slot.Set(c.space.Name, c.choices[:c.pos])
	}
}

// Publish records the choices taken so far as those of the case being run.
func (c *Ctx) Publish() { c.publish() }

// State counts explored states (configurations).
func (c *Ctx) State(n int) { c.stats.States += int64(n) }

// Step counts transitions taken by the model.
func (c *Ctx) Step(n int) { c.stats.Transitions += int64(n) }

// Incomplete records that the leaf did not cover its bounds.
func (c *Ctx) Incomplete() { c.incomplete = true }

// Expired tells whether the time is up. A leaf that stops early because of it
// calls Incomplete.
func (c *Ctx) Expired() bool { return !c.deadline.IsZero() && time.Now().After(c.deadline) }

// Trace counts comparisons of a model trace with the implementation.
func (c *Ctx) Trace(n int) { c.stats.Traces += int64(n) }

// Sample records what a case looks like. Only a few are kept.
func (c *Ctx) Sample(f func() string) {
	n := len(c.stats.Samples)
	l := c.stats.Leaves
	if n < 2 || n < 4 && l > 100 && l&(l-1) == 0 {
		c.stats.Samples = append(c.stats.Samples, f())
	}
}

// Fail records a violation and abandons the leaf.
func (c *Ctx) Fail(format string, args ...interface{}) {
	c.FailKey("", format, args...)
	panic(failed{})
}

// FailKey records a violation that can be recognised by a key. It returns, so
// that the exploration can go on after known findings.
func (c *Ctx) FailKey(key, format string, args ...interface{}) {
	if key != "" && c.known[key] {
		c.hit[key] = true
		return
	}
	if c.onFail != nil {
		c.onFail(fmt.Sprintf(format, args...))
		return
	}
	c.violations = append(c.violations, Violation{
		Property: c.prop,
		Space:    c.space.Name,
		Choices:  append([]int{}, c.choices[:c.pos]...),
		Key:      key,
		What:     fmt.Sprintf(format, args...),
		Tier:     c.Tier,
	})
}

// Collector is a context outside any exploration: there is nothing to choose,
// and violations are handed to a function.
func Collector(fail func(msg string)) *Ctx {
	c := &Ctx{space: &Space{Single: true}, nshard: 1, mine: true, stats: &SpaceStats{}, known: map[string]bool{}, hit: map[string]bool{}}
	c.onFail = fail
	return c
}

// Counts returns how many states and transitions were counted.
func (c *Ctx) Counts() (states, transitions int64) {
	return c.stats.States, c.stats.Transitions
}

// leaf runs one leaf. It returns false when the branch was pruned.
func (c *Ctx) leaf() (ok bool) {
	c.pos = 0
	c.mine = false
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case pruned:
				ok = false
			case failed:
				ok = true
			default:
				c.violations = append(c.violations, Violation{
					Property: c.prop,
					Space:    c.space.Name,
					Choices:  append([]int{}, c.choices[:c.pos]...),
					What:     fmt.Sprintf("panic: %v\n%s", r, debug.Stack()),
					Tier:     c.Tier,
				})
				ok = true
			}
		}
	}()
	c.space.Run(c)
	return true
}

// next advances to the next choice sequence. It returns false at the end.
func (c *Ctx) next() bool {
	n := c.pos
	c.choices, c.limits = c.choices[:n], c.limits[:n]
	for n > 0 {
		if c.choices[n-1]+1 < c.limits[n-1] {
			c.choices[n-1]++
			c.choices, c.limits = c.choices[:n], c.limits[:n]
			return true
		}
		n--
	}
	return false
}

// explore runs a space to the end, the deadline or the first violations.
func explore(p *Property, s *Space, tier string, shard, nshard int, deadline time.Time, known map[string]bool, slot *Slot, progress func()) (*SpaceStats, []Violation, map[string]bool) {
	st := &SpaceStats{Name: s.Name, Bounds: s.Bounds, Complete: true}
	c := &Ctx{Tier: tier, space: s, prop: p.ID, shard: shard, nshard: nshard, stats: st, known: known, hit: map[string]bool{}, slot: slot, deadline: deadline}
	start := time.Now()
	if s.Single && shard != 0 {
		return st, nil, c.hit
	}
	for {
		if c.leaf() {
			st.Leaves++
			if c.pos > st.MaxChoices {
				st.MaxChoices = c.pos
			}
			if !c.mine && !s.Single {
				panic("space " + s.Name + " does not call Mine")
			}
			progress()
		}
		if len(c.violations) > 0 {
			st.Complete = false
			break
		}
		if !c.next() {
			break
		}
		if time.Now().After(deadline) {
			st.Complete = false
			break
		}
	}
	delete(lastPrefix, c)
	if c.incomplete {
		st.Complete = false
	}
	st.Seconds = time.Since(start).Seconds()
	return st, c.violations, c.hit
}

// Replay runs a single leaf again.
func Replay(p *Property, v Violation) []Violation {
	for _, s := range p.Spaces(v.Tier) {
		if s.Name != v.Space {
			continue
		}
		s := s
		st := &SpaceStats{}
		c := &Ctx{Tier: v.Tier, space: &s, prop: p.ID, nshard: 1, stats: st, known: map[string]bool{}, hit: map[string]bool{}, replay: true}
		c.choices = append([]int{}, v.Choices...)
		c.limits = make([]int, len(v.Choices))
		c.leaf()
		return c.violations
	}
	return []Violation{{What: "no such space: " + v.Space}}
}

// KnownFinding is one line of the known findings file.
type KnownFinding struct {
	Kind     string   `json:"kind"` // known or fixed
	Property string   `json:"property"`
	Commit   string   `json:"commit,omitempty"`
	What     string   `json:"what"`
	Keys     []string `json:"keys,omitempty"`
}

// LoadKnown reads the known findings file.
func LoadKnown(path string) []KnownFinding {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "{") {
			continue
		}
		var k KnownFinding
		if err := json.Unmarshal([]byte(line), &k); err == nil {
			out = append(out, k)
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
