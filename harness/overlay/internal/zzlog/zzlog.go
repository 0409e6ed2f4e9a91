// Package zzlog is a logger that keeps everything that is logged.
package zzlog

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"strings"

	"github.com/hashicorp/go-hclog"

	nd "github.com/netauth/netauth/internal/zznd"
)

// On makes New hand out recording loggers.
var On bool

type line struct {
	msg  string
	args []interface{}
}

var lines []line

// New is the logger handed to the code under check.
func New() hclog.Logger {
	if On {
		return &rec{}
	}
	return hclog.NewNullLogger()
}

// N is the number of messages logged.
func N() int { return len(lines) }

type rec struct{ with []interface{} }

func (r *rec) add(msg string, args []interface{}) {
	lines = append(lines, line{msg, append(append([]interface{}{}, r.with...), args...)})
}

func (r *rec) Trace(msg string, args ...interface{}) { r.add(msg, args) }
func (r *rec) Debug(msg string, args ...interface{}) { r.add(msg, args) }
func (r *rec) Info(msg string, args ...interface{})  { r.add(msg, args) }
func (r *rec) Warn(msg string, args ...interface{})  { r.add(msg, args) }
func (r *rec) Error(msg string, args ...interface{}) { r.add(msg, args) }
func (r *rec) IsTrace() bool                         { return true }
func (r *rec) IsDebug() bool                         { return true }
func (r *rec) IsInfo() bool                          { return true }
func (r *rec) IsWarn() bool                          { return true }
func (r *rec) IsError() bool                         { return true }
func (r *rec) With(args ...interface{}) hclog.Logger {
	return &rec{append(append([]interface{}{}, r.with...), args...)}
}
func (r *rec) Named(name string) hclog.Logger      { r.add(name, nil); return r }
func (r *rec) ResetNamed(name string) hclog.Logger { r.add(name, nil); return r }
func (r *rec) SetLevel(level hclog.Level)          {}
func (r *rec) StandardLogger(opts *hclog.StandardLoggerOptions) *log.Logger {
	return log.New(r.StandardWriter(opts), "", 0)
}
func (r *rec) StandardWriter(opts *hclog.StandardLoggerOptions) io.Writer { return writer{r} }

type writer struct{ r *rec }

func (w writer) Write(b []byte) (int, error) {
	w.r.add(string(b), nil)
	return len(b), nil
}

// text is how a logger shows a value.
func text(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return x
	case []byte:
		return string(x)
	case error:
		return x.Error()
	case context.Context:
		return ""
	case int, int32, int64, uint32, bool, hclog.Level:
		return ""
	case hclog.Format:
		return fmt.Sprint([]interface{}(x)...)
	}
	return fmt.Sprint(v)
}

// Has tells whether anything logged or printed since On contains s.
func Has(s string) bool {
	r := strings.Contains(nd.Printed(), s)
	for _, l := range lines {
		r = nd.Or(r, strings.Contains(l.msg, s))
		for _, a := range l.args {
			r = nd.Or(r, strings.Contains(text(a), s))
		}
	}
	return r
}

// Start begins to keep what is logged and printed.
func Start() {
	On = true
	lines = nil
	nd.CapturePrint()
	if !nd.Symbolic() {
		hclog.DefaultOutput = os.Stderr
		hclog.SetDefault(New())
	}
}
