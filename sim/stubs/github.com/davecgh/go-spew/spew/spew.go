// Package spew is a stand-in for github.com/davecgh/go-spew/spew (not
// available offline); the repository uses only Dump.
package spew

import (
	"fmt"
	"io"
	"os"
	"strings"
)

// Stdout is where Dump writes; the simulator replaces it.
var Stdout io.Writer = os.Stdout

func Dump(a ...interface{}) { Fdump(Stdout, a...) }

func Fdump(w io.Writer, a ...interface{}) {
	for _, v := range a {
		fmt.Fprintf(w, "(%T) %v\n", v, v)
	}
}

func Sdump(a ...interface{}) string {
	var b strings.Builder
	Fdump(&b, a...)
	return b.String()
}

func Printf(format string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, format, a...) }
func Println(a ...interface{}) (int, error)               { return fmt.Fprintln(Stdout, a...) }
func Sprint(a ...interface{}) string                      { return fmt.Sprint(a...) }
func Sprintf(format string, a ...interface{}) string      { return fmt.Sprintf(format, a...) }
