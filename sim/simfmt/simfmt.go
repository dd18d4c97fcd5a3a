// Package simfmt is package fmt with the synchronisation of its internal printer cache hidden from the race detector:
// otherwise two goroutines that happen to reuse a printer would look synchronised.
package simfmt

import (
	"fmt"
	"io"

	"github.com/amarin/query/zz_verif/simrt"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
	Scanner    = fmt.Scanner
	ScanState  = fmt.ScanState
)

func Sprintf(format string, a ...any) string {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Sprintf(format, a...)
}

func Sprint(a ...any) string {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Sprint(a...)
}

func Sprintln(a ...any) string {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Sprintln(a...)
}

func Errorf(format string, a ...any) error {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Errorf(format, a...)
}

func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Fprintf(w, format, a...)
}

func Fprint(w io.Writer, a ...any) (int, error) {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Fprint(w, a...)
}

func Fprintln(w io.Writer, a ...any) (int, error) {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Fprintln(w, a...)
}

func Append(b []byte, a ...any) []byte {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Append(b, a...)
}

func Appendf(b []byte, format string, a ...any) []byte {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Appendf(b, format, a...)
}

func Appendln(b []byte, a ...any) []byte {
	simrt.Hide()
	defer simrt.Unhide()
	return fmt.Appendln(b, a...)
}

func Printf(format string, a ...any) (int, error) { return len(Sprintf(format, a...)), nil }
func Print(a ...any) (int, error)                 { return len(Sprint(a...)), nil }
func Println(a ...any) (int, error)               { return len(Sprintln(a...)), nil }

func Sscanf(s, format string, a ...any) (int, error) { return fmt.Sscanf(s, format, a...) }
func Sscan(s string, a ...any) (int, error)          { return fmt.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)        { return fmt.Sscanln(s, a...) }
func FormatString(s State, verb rune) string         { return fmt.FormatString(s, verb) }
