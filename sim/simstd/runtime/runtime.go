// Package runtime replaces the parts of runtime that influence scheduling.
package runtime

import (
	gr "runtime"
	"simrt"
)

const (
	GOOS     = gr.GOOS
	GOARCH   = gr.GOARCH
	Compiler = gr.Compiler
)

type (
	Error              = gr.Error
	Func               = gr.Func
	Frame              = gr.Frame
	Frames             = gr.Frames
	MemStats           = gr.MemStats
	TypeAssertionError = gr.TypeAssertionError
	PanicNilError      = gr.PanicNilError
)

var (
	Caller        = gr.Caller
	Callers       = gr.Callers
	CallersFrames = gr.CallersFrames
	FuncForPC     = gr.FuncForPC
	Stack         = gr.Stack
	GC            = gr.GC
	GOROOT        = gr.GOROOT
	Version       = gr.Version
	KeepAlive     = gr.KeepAlive
	ReadMemStats  = gr.ReadMemStats
	SetFinalizer  = gr.SetFinalizer
)

func Gosched()           { simrt.Gosched() }
func NumCPU() int        { return simrt.NumCPU() }
func GOMAXPROCS(int) int { return simrt.NumCPU() }
func NumGoroutine() int  { return simrt.NumGoroutine() }
func Goexit()            { gr.Goexit() }
func LockOSThread()      {}
func UnlockOSThread()    {}
