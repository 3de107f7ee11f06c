// Command mc holds the checks that explore unmodified code.
package main

import "github.com/tinne26/ggfnt/verifmc/explore"

func main() { explore.Main() }
