package main

import (
	gocontext "context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"strconv"
	"syscall"
)

// simErr is an injected failure; every firing makes a new one, so the first can be told from the rest.
type simErr struct {
	Kind string
	N    int
}

func (e *simErr) Error() string { return "sim " + e.Kind + " #" + strconv.Itoa(e.N) }

// simPanic is an injected panic value that is not an error.
type simPanic struct{ N int }

// tempErr is a network-like error that asks to be retried.
type tempErr struct{ n int }

func (e *tempErr) Error() string   { return "sim temporary error #" + strconv.Itoa(e.n) }
func (e *tempErr) Temporary() bool { return true }
func (e *tempErr) Timeout() bool   { return true }

// listErr is an error whose type is not comparable.
type listErr []string

func (e listErr) Error() string { return fmt.Sprint([]string(e)) }
func (e listErr) Is(t error) bool {
	o, ok := t.(listErr)
	return ok && o.Error() == e.Error()
}

// The errors real writers, readers and callbacks report. Only the first failure of a stream uses one of
// them, so that no later failure can be taken for it.
var likeErrs = []func(n int) error{
	func(int) error { return io.ErrShortWrite },
	func(int) error { return io.ErrUnexpectedEOF },
	func(int) error { return io.ErrClosedPipe },
	func(int) error { return io.ErrNoProgress },
	func(int) error { return io.ErrShortBuffer },
	func(int) error { return os.ErrDeadlineExceeded },
	func(int) error { return os.ErrClosed },
	func(int) error { return syscall.EINTR },
	func(int) error { return syscall.EAGAIN },
	func(int) error { return syscall.EPIPE },
	func(int) error { return syscall.ENOSPC },
	func(int) error { return syscall.ECONNRESET },
	func(int) error { return gocontext.Canceled },
	func(int) error { return gocontext.DeadlineExceeded },
	func(int) error { return net.ErrClosed },
	func(n int) error { return &tempErr{n} },
	func(n int) error { return fmt.Errorf("sim wrapped #%d: %w", n, io.ErrShortWrite) },
	func(n int) error { return &os.PathError{Op: "write", Path: "sim", Err: syscall.EINTR} },
	func(n int) error { return errors.Join(&tempErr{n}, syscall.EPIPE) },
	func(n int) error { return listErr{"sim list", strconv.Itoa(n)} },
	func(int) error { return io.EOF }, // never for readers
	func(int) error { return http.ErrBodyNotAllowed },
	func(int) error { return http.ErrContentLength },
	func(int) error { return http.ErrHandlerTimeout },
	func(int) error { return http.ErrAbortHandler },
	func(n int) error {
		return &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	},
	func(int) error { return fs.SkipAll },
	func(int) error { return errors.ErrUnsupported },
	func(int) error { return (*nilErr)(nil) },
}

// nilErr is an error that is a nil pointer, but an error all the same.
type nilErr struct{}

func (*nilErr) Error() string { return "sim error that is a nil pointer" }

const eofErr = 21 // its number, counted from 1

// makeErr makes an injected error; like is 0 or the number of a realistic one.
func makeErr(kind string, like, n int) error {
	if like > 0 && like <= len(likeErrs) {
		return likeErrs[like-1](n)
	}
	return &simErr{kind, n}
}
