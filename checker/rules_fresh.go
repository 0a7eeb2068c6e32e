package main

// New names, numbers and metavariables.

func init() {
	register("A06", "The functions that make identifiers, variables, metavariables and numbers are compared, on every path, with references: what is returned, and what the tables and counters hold afterwards.", ruleA06)
}

func ruleA06(c *Ctx) {
	c.rule("fresh", "a name that is known gets its number, a new one gets a number that was never given", 10)
	countersSeen = true
	defer func() { countersSeen = false }()
	s := same{hook: hooks(copyHook)}
	c.batchRefs("fresh", "A06", "AST", s, "*")
	c.batchRefs("fresh", "A06", "Glob", s, "*")
	c.batchRefs("fresh", "A06", "Search/incremental", s, "*")
}
