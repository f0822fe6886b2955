// mcseq decides the sequential properties (C10 and up): it enumerates programs,
// inputs and histories up to stated bounds, runs each on golisp as built from
// /repo and on the reference model (package ref), and compares.
package main

import "verif/mc/core"

func main() { core.Main() }
