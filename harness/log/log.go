// Package log stands in for log: a fatal message ends the process by panicking with Exit.
package log

import (
	"fmt"
	"io"
)

// Exit is the panic of a process that ends.
type Exit struct{ Msg string }

// Ended tells whether the panic value is an ended process.
func Ended(r interface{}) bool { _, ok := r.(Exit); return ok }

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

func Fatal(v ...interface{})            { panic(Exit{fmt.Sprint(v...)}) }
func Fatalf(f string, v ...interface{}) { panic(Exit{fmt.Sprintf(f, v...)}) }
func Fatalln(v ...interface{})          { panic(Exit{fmt.Sprintln(v...)}) }
func Panic(v ...interface{})            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...interface{}) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...interface{})          { panic(fmt.Sprintln(v...)) }
func Print(v ...interface{})            {}
func Printf(f string, v ...interface{}) {}
func Println(v ...interface{})          {}
func SetFlags(int)                      {}
func SetPrefix(string)                  {}
func SetOutput(io.Writer)               {}

// Logger drops what it is told.
type Logger struct{}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{} }
func (l *Logger) Print(v ...interface{})               {}
func (l *Logger) Printf(f string, v ...interface{})    {}
func (l *Logger) Println(v ...interface{})             {}
func (l *Logger) Fatal(v ...interface{})               { Fatal(v...) }
func (l *Logger) Fatalf(f string, v ...interface{})    { Fatalf(f, v...) }
func (l *Logger) Fatalln(v ...interface{})             { Fatalln(v...) }
func (l *Logger) Panic(v ...interface{})               { Panic(v...) }
func (l *Logger) Panicf(f string, v ...interface{})    { Panicf(f, v...) }
func (l *Logger) Panicln(v ...interface{})             { Panicln(v...) }
func (l *Logger) SetFlags(int)                         {}
func (l *Logger) SetPrefix(string)                     {}
func (l *Logger) SetOutput(io.Writer)                  {}
func (l *Logger) Flags() int                           { return LstdFlags }
func (l *Logger) Prefix() string                       { return "" }
func (l *Logger) Output(depth int, s string) error     { return nil }

// Default drops what it is told.
func Default() *Logger { return &Logger{} }

func Flags() int                       { return LstdFlags }
func Prefix() string                   { return "" }
func Writer() io.Writer                { return io.Discard }
func Output(depth int, s string) error { return nil }
