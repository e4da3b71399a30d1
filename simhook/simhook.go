// Package simhook exists only in the build overlay of the simulator: every statement of the code
// under test is preceded by a call of Y.
package simhook

import "math"

var (
	// Sites names every yield point, Cov marks those that were reached.
	Sites []string
	Cov   []uint8
	// N counts the yields so far; when it reaches Next, Slow is called.
	N    int64
	Next int64 = math.MaxInt64
	Slow func(site int)
	// Block gives the processor to another logical thread, and says whether there was one.
	Block func() bool
	// Held counts the locks the running logical thread holds.
	Held int
	// Vars are the package-level variables of the code under test.
	Vars []Var
)

type Var struct {
	Name string
	Ptr  interface{}
}

func RegVar(name string, ptr interface{}) { Vars = append(Vars, Var{name, ptr}) }

// Y is called before every statement.
func Y(site int) {
	N++
	if site < len(Cov) {
		Cov[site] = 1
	}
	if N >= Next && Slow != nil {
		Slow(site)
	}
}
