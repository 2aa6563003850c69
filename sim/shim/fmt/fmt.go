// Package fmt keeps the programs' standard output inside the simulation.
package fmt

import (
	real "fmt"

	"verif.local/simrt"
)

func out(s string) (int, error) {
	if n := simrt.CurNode(); n != nil {
		n.Stdout += len(s)
	}
	return len(s), nil
}

func Print(a ...any) (int, error)            { return out(real.Sprint(a...)) }
func Printf(f string, a ...any) (int, error) { return out(real.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return out(real.Sprintln(a...)) }
