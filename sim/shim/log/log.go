// Package log keeps the programs' logs inside the simulation.
package log

import (
	"fmt"
	"io"
	real "log"

	"verif.local/simrt"
)

// Logger is the standard logger, per simulated process.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
	std    bool
}

func (l *Logger) out(s string) {
	n := simrt.CurNode()
	if n == nil {
		return
	}
	w := l.w
	if l.std {
		w, _ = n.LogOut.(io.Writer)
	}
	n.AddLog(s)
	if w != nil {
		if len(s) == 0 || s[len(s)-1] != '\n' {
			s += "\n"
		}
		w.Write([]byte(l.prefix + s))
	}
}

var std = &Logger{std: true}

func Default() *Logger { return std }
func New(w io.Writer, prefix string, flag int) *Logger {
	return &Logger{w: w, prefix: prefix, flags: flag}
}
func (l *Logger) SetOutput(w io.Writer) {
	if l.std {
		if n := simrt.CurNode(); n != nil {
			n.LogOut = w
		}
		return
	}
	l.w = w
}
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) SetFlags(f int)               { l.flags = f }
func (l *Logger) Flags() int                   { return l.flags }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) Writer() io.Writer            { return io.Discard }
func (l *Logger) Output(_ int, s string) error { l.out(s); return nil }
func (l *Logger) Print(a ...any)               { l.out(fmt.Sprint(a...)) }
func (l *Logger) Printf(f string, a ...any)    { l.out(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...any)             { l.out(fmt.Sprintln(a...)) }
func (l *Logger) Fatal(a ...any)               { s := fmt.Sprint(a...); l.out(s); simrt.Die(simrt.ExitFatal, s) }
func (l *Logger) Fatalf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	l.out(s)
	simrt.Die(simrt.ExitFatal, s)
}
func (l *Logger) Fatalln(a ...any)          { s := fmt.Sprintln(a...); l.out(s); simrt.Die(simrt.ExitFatal, s) }
func (l *Logger) Panic(a ...any)            { s := fmt.Sprint(a...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, a ...any) { s := fmt.Sprintf(f, a...); l.out(s); panic(s) }
func (l *Logger) Panicln(a ...any)          { s := fmt.Sprintln(a...); l.out(s); panic(s) }

func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetPrefix(p string)           {}
func SetFlags(f int)               {}
func Flags() int                   { return real.LstdFlags }
func Prefix() string               { return "" }
func Writer() io.Writer            { return io.Discard }
func Output(d int, s string) error { return std.Output(d, s) }
func Print(a ...any)               { std.Print(a...) }
func Printf(f string, a ...any)    { std.Printf(f, a...) }
func Println(a ...any)             { std.Println(a...) }
func Fatal(a ...any)               { s := fmt.Sprint(a...); std.out(s); simrt.Die(simrt.ExitFatal, s) }
func Fatalf(f string, a ...any)    { s := fmt.Sprintf(f, a...); std.out(s); simrt.Die(simrt.ExitFatal, s) }
func Fatalln(a ...any)             { s := fmt.Sprintln(a...); std.out(s); simrt.Die(simrt.ExitFatal, s) }
func Panic(a ...any)               { s := fmt.Sprint(a...); std.out(s); panic(s) }
func Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); std.out(s); panic(s) }
func Panicln(a ...any)             { s := fmt.Sprintln(a...); std.out(s); panic(s) }
