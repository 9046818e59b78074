// Package simlog stands in for package log: it writes to the simulated
// standard error and ends the simulated process.
package simlog

import (
	"fmt"
	"io"
	"log"

	"simworld/simos"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Logger is a logger of the simulated process.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix, flag} }
func Default() *Logger                                 { return std }

func (l *Logger) out(s string) {
	if n := len(s); n == 0 || s[n-1] != '\n' {
		s += "\n"
	}
	w := l.w
	if w == nil {
		w = simos.Stderr
	}
	_, _ = io.WriteString(w, l.prefix+s)
}

func (l *Logger) SetFlags(f int)        { l.flags = f }
func (l *Logger) Flags() int            { return l.flags }
func (l *Logger) SetPrefix(p string)    { l.prefix = p }
func (l *Logger) Prefix() string        { return l.prefix }
func (l *Logger) SetOutput(w io.Writer) { l.w = w }
func (l *Logger) Writer() io.Writer {
	if l.w == nil {
		return simos.Stderr
	}
	return l.w
}
func (l *Logger) Output(depth int, s string) error  { l.out(s); return nil }
func (l *Logger) Print(v ...interface{})            { l.out(fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.out(fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...interface{})          { l.out(fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Print(v...); simos.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Printf(f, v...); simos.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Println(v...); simos.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := fmt.Sprint(v...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) { s := fmt.Sprintf(f, v...); l.out(s); panic(s) }
func (l *Logger) Panicln(v ...interface{})          { s := fmt.Sprintln(v...); l.out(s); panic(s) }
func SetFlags(f int)                                { std.SetFlags(f) }
func Flags() int                                    { return std.Flags() }
func SetPrefix(p string)                            { std.SetPrefix(p) }
func Prefix() string                                { return std.Prefix() }
func SetOutput(w io.Writer)                         { std.SetOutput(w) }
func Writer() io.Writer                             { return std.Writer() }
func Output(d int, s string) error                  { return std.Output(d, s) }
func Print(v ...interface{})                        { std.Print(v...) }
func Printf(f string, v ...interface{})             { std.Printf(f, v...) }
func Println(v ...interface{})                      { std.Println(v...) }
func Fatal(v ...interface{})                        { std.Fatal(v...) }
func Fatalf(f string, v ...interface{})             { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})                      { std.Fatalln(v...) }
func Panic(v ...interface{})                        { std.Panic(v...) }
func Panicf(f string, v ...interface{})             { std.Panicf(f, v...) }
func Panicln(v ...interface{})                      { std.Panicln(v...) }

// Boot resets the standard logger for a new process.
func Boot() { std = &Logger{} }
