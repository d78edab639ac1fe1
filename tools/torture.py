# torture.py: run in a copy of /repo; rewrites Context.Write to do its work through goroutines, channels, select
# and timers without changing what it does. Used to test the simulator (tools/alt.sh COPY OUT race): every
# property must stay quiet on the result.
p='context/context.go'
s=open(p).read()
s=s.replace('''		_, c.Error = c.Writer.Write(data)
''','''		c.Error = writeAsync(c.Writer, data)
''')
s=s.replace('''import (
	"fmt"
	"io"
	"reflect"
)''','''import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

var sem = make(chan struct{}, 2)
var inflight atomic.Int64
var stats sync.Map
var once sync.Once
var started time.Time

type result struct {
	err error
	pv  any
	bad bool
}

func stage[T any](in <-chan T, f func(T)) {
	for v := range in {
		f(v)
	}
}

func writeAsync(w io.Writer, data []byte) error {
	once.Do(func() { started = time.Now() })
	if time.Since(started) < 0 {
		panic("clock went back")
	}
	sem <- struct{}{}
	inflight.Add(1)
	defer func() {
		<-sem
		inflight.Add(-1)
	}()
	done := make(chan result, 1)
	in := make(chan []byte)
	go stage(in, func(b []byte) {
		var r result
		defer func() {
			if r.bad {
				r.pv = recover()
			}
			done <- r
		}()
		r.bad = true
		_, r.err = w.Write(b)
		r.bad = false
	})
	in <- data
	close(in)
	t := time.NewTicker(50 * time.Hour)
	defer t.Stop()
	var r result
	var ok bool
	spins := 0
loop:
	for {
		select {
		case r, ok = <-done:
			if !ok {
				panic("closed")
			}
			break loop
		case <-time.After(1000 * time.Hour):
		case <-t.C:
			spins++
		case x := <-chan int(nil):
			panic(x)
		}
	}
	select {
	case <-done:
		panic("twice")
	default:
	}
	for inflight.Load() > 2 {
		runtime.Gosched()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := 0
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			n += k
		}(i)
	}
	wg.Wait()
	if n != 3 || len(done) != 0 || cap(sem) != 2 {
		panic("lost update")
	}
	stats.Store(len(data), n)
	if r.bad {
		panic(r.pv)
	}
	return r.err
}
''')
open(p,'w').write(s)
