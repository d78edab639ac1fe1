// Package simio stands in for io.Pipe inside the instrumented library: the same pipe, made of the
// simulator's locks and channels.
package simio

import (
	"io"
	"verifsim/simrt"
	"verifsim/simsync"
)

type onceError struct {
	mu  simsync.Mutex
	err error
}

func (a *onceError) Store(err error) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.err == nil {
		a.err = err
	}
}

func (a *onceError) Load() error {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.err
}

type pipe struct {
	wrMu simsync.Mutex
	wrCh chan []byte
	rdCh chan int
	once simsync.Once
	done chan struct{}
	rerr onceError
	werr onceError
}

func (p *pipe) isDone() bool {
	d := simrt.CaseRecv(p.done)
	return simrt.Select(true, d) == 0
}

func (p *pipe) read(b []byte) (n int, err error) {
	if p.isDone() {
		return 0, p.readCloseError()
	}
	w, d := simrt.CaseRecv(p.wrCh), simrt.CaseRecv(p.done)
	if simrt.Select(false, w, d) == 0 {
		nr := copy(b, w.V)
		simrt.Send(p.rdCh)(nr)
		return nr, nil
	}
	return 0, p.readCloseError()
}

func (p *pipe) closeRead(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p.rerr.Store(err)
	p.once.Do(func() { simrt.Close(p.done) })
	return nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	if p.isDone() {
		return 0, p.writeCloseError()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		w, d := simrt.CaseSend(p.wrCh)(b), simrt.CaseRecv(p.done)
		if simrt.Select(false, w, d) == 0 {
			nw := simrt.Recv(p.rdCh)
			b = b[nw:]
			n += nw
		} else {
			return n, p.writeCloseError()
		}
	}
	return n, nil
}

func (p *pipe) closeWrite(err error) error {
	if err == nil {
		err = io.EOF
	}
	p.werr.Store(err)
	p.once.Do(func() { simrt.Close(p.done) })
	return nil
}

func (p *pipe) readCloseError() error {
	rerr := p.rerr.Load()
	if werr := p.werr.Load(); rerr == nil && werr != nil {
		return werr
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeCloseError() error {
	werr := p.werr.Load()
	if rerr := p.rerr.Load(); werr == nil && rerr != nil {
		return rerr
	}
	return io.ErrClosedPipe
}

// PipeReader is io.PipeReader.
type PipeReader struct{ pipe }

func (r *PipeReader) Read(data []byte) (n int, err error) { return r.pipe.read(data) }
func (r *PipeReader) Close() error                        { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error      { return r.pipe.closeRead(err) }

// PipeWriter is io.PipeWriter.
type PipeWriter struct{ r PipeReader }

func (w *PipeWriter) Write(data []byte) (n int, err error) { return w.r.pipe.write(data) }
func (w *PipeWriter) Close() error                         { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error       { return w.r.pipe.closeWrite(err) }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	pw := &PipeWriter{r: PipeReader{pipe: pipe{
		wrCh: simrt.MakeChan(make(chan []byte)),
		rdCh: simrt.MakeChan(make(chan int)),
		done: simrt.MakeChan(make(chan struct{})),
	}}}
	return &pw.r, pw
}
