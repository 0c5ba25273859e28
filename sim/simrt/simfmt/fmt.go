// Package simfmt stands in for the functions of fmt that print to the standard output.
package simfmt

import (
	"fmt"

	"verif.local/simrt/simos"
)

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(simos.Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(simos.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(simos.Stdout, f, a...) }
