// Package scen describes concurrent scenarios: what the checker enumerates and the driver runs.
package scen

// Op is one call of a client.
type Op struct {
	Compile bool // compile the path first, instead of using the shared one
	Own     bool // evaluate on the client's own copy of the document
	Path    int
	Doc     int // -1: do not evaluate
}

// Scenario is a set of clients that share compiled paths and documents.
type Scenario struct {
	Paths   []string
	Docs    []string
	Clients [][]Op
	Late    bool // a goroutine that outlives its evaluation is a violation
}

// Result of one scenario.
type Result struct {
	I        int
	Start    bool
	Execs    int
	Pruned   int
	Steps    int
	Nodes    int
	Capped   bool
	Outcomes int
	Gos      int // most goroutines in one execution, clients included
	Msg      string
	Sched    []int
	Trace    string
	Err      string // the scenario could not be run
}
