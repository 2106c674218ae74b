package nd

import (
	"fmt"
	"io"
	"os"
	"sync"
	"time"
)

// What the symbolic engine runs in place of some functions of the standard
// library that rest on the runtime or on reflection. Never called natively.

// AsOne is errors.As for one error, not its chain.
func AsOne(err error, target interface{}) bool { return false }

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if AsOne(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				if ErrorsAs(y, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func ErrorsIs(err error, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				if ErrorsIs(y, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return target == nil
}

func Fprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	if w == io.Writer(os.Stdout) || w == io.Writer(os.Stderr) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}

func Fprint(w io.Writer, a ...interface{}) (int, error) {
	if w == io.Writer(os.Stdout) || w == io.Writer(os.Stderr) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprint(a...)))
}

func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	if w == io.Writer(os.Stdout) || w == io.Writer(os.Stderr) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintln(a...)))
}

var pools map[*sync.Pool][]interface{}

func PoolGet(p *sync.Pool) interface{} {
	if l := pools[p]; len(l) > 0 {
		x := l[len(l)-1]
		pools[p] = l[:len(l)-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func PoolPut(p *sync.Pool, x interface{}) {
	if x == nil {
		return
	}
	if pools == nil {
		pools = map[*sync.Pool][]interface{}{}
	}
	l := pools[p]
	pools[p] = append(l[:len(l):len(l)], x)
}

var maps map[*sync.Map]map[interface{}]interface{}

func smap(m *sync.Map) map[interface{}]interface{} {
	if maps == nil {
		maps = map[*sync.Map]map[interface{}]interface{}{}
	}
	if maps[m] == nil {
		maps[m] = map[interface{}]interface{}{}
	}
	return maps[m]
}

func MapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := smap(m)[k]
	return v, ok
}

func MapStore(m *sync.Map, k interface{}, v interface{}) { smap(m)[k] = v }

func MapDelete(m *sync.Map, k interface{}) { delete(smap(m), k) }

func MapLoadOrStore(m *sync.Map, k interface{}, v interface{}) (interface{}, bool) {
	if x, ok := smap(m)[k]; ok {
		return x, true
	}
	smap(m)[k] = v
	return v, false
}

func MapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := smap(m)[k]
	delete(smap(m), k)
	return v, ok
}

func MapRange(m *sync.Map, f func(k interface{}, v interface{}) bool) {
	for k, v := range smap(m) {
		if !f(k, v) {
			return
		}
	}
}

func Now() time.Time { return time.Time{} }

func Since(t time.Time) time.Duration { return 0 }

func Getenv(k string) string { return "" }

func LookupEnv(k string) (string, bool) { return "", false }
