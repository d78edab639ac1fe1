package main

import (
	"fmt"
	"reflect"
	"strconv"
)

// owned is a value of the caller's: what it was when the library first got to see it.
type owned struct {
	live, snap any
	what       string
}

type ownedList struct {
	l    []*owned
	maps map[uintptr]*owned // maps that the caller itself may change
}

func (o *ownedList) add(v any, what string) {
	switch v.(type) {
	case map[string]any, []any, []string, []int, map[string]string, []map[string]any, namedData, namedList:
	default:
		return
	}
	w := &owned{live: v, snap: snap(v), what: what}
	o.l = append(o.l, w)
	if m, ok := v.(map[string]any); ok {
		if o.maps == nil {
			o.maps = map[uintptr]*owned{}
		}
		o.maps[reflect.ValueOf(m).Pointer()] = w
	}
}

// set is a change made by the owner.
func (o *ownedList) set(m map[string]any, k string, v any) {
	m[k] = v
	if w := o.maps[reflect.ValueOf(m).Pointer()]; w != nil {
		w.snap.(mapSnap).m[k] = snap(v)
	}
}

func (o *ownedList) del(m map[string]any, k string) {
	delete(m, k)
	if w := o.maps[reflect.ValueOf(m).Pointer()]; w != nil {
		delete(w.snap.(mapSnap).m, k)
	}
}

// again takes what there is now as what the owner wants, after a change of its own.
func (o *ownedList) again() {
	for _, w := range o.l {
		w.snap = snap(w.live)
	}
}

// changed says what is no longer as its owner left it.
func (o *ownedList) changed() string {
	for _, w := range o.l {
		if d := differs(w.live, w.snap, w.what); d != "" {
			return d
		}
	}
	return ""
}

// mapSnap is what a map held, and which one it was.
type mapSnap struct {
	at uintptr
	m  map[string]any
}

// snap copies a value as far as it could be written to. Lists are copied with their spare capacity.
func snap(v any) any {
	switch x := v.(type) {
	case namedData:
		if x == nil {
			return x
		}
		return snap(map[string]any(x))
	case namedList:
		return snap([]any(x))
	case map[string]any:
		c := make(map[string]any, len(x))
		for k, e := range x {
			c[k] = snap(e)
		}
		return mapSnap{reflect.ValueOf(x).Pointer(), c}
	case map[string]string:
		if x == nil {
			return x
		}
		c := make(map[string]string, len(x))
		for k, e := range x {
			c[k] = e
		}
		return c
	case []any:
		x = x[:cap(x)]
		c := make([]any, len(x))
		for i, e := range x {
			c[i] = snap(e)
		}
		return c
	case []string:
		return append([]string(nil), x[:cap(x)]...)
	case []int:
		return append([]int(nil), x[:cap(x)]...)
	case []map[string]any:
		x = x[:cap(x)]
		c := make([]any, len(x))
		for i, e := range x {
			c[i] = snap(e)
		}
		return c
	case []byte:
		return v
	}
	if r := reflect.ValueOf(v); r.Kind() == reflect.Slice {
		r = r.Slice(0, r.Cap())
		c := make(typedSnap, r.Len())
		for i := range c {
			c[i] = snap(r.Index(i).Interface())
		}
		return c
	}
	return v
}

type typedSnap []any // of a slice of some other type

func differs(v, was any, what string) string {
	list := func(n, m int, at func(i int) (any, any)) string {
		if n != m {
			return fmt.Sprintf("%s: length %d, was %d", what, n, m)
		}
		for i := 0; i < n; i++ {
			a, b := at(i)
			if d := differs(a, b, what+"["+strconv.Itoa(i)+"]"); d != "" {
				return d
			}
		}
		return ""
	}
	switch x := v.(type) {
	case namedData:
		if w, ok := was.(namedData); ok && (x == nil) == (w == nil) {
			return ""
		}
		return differs(map[string]any(x), was, what)
	case namedList:
		return differs([]any(x), was, what)
	case map[string]any:
		ms, ok := was.(mapSnap)
		if !ok {
			break
		}
		if reflect.ValueOf(x).Pointer() != ms.at {
			return fmt.Sprintf("%s: is another map", what)
		}
		w := ms.m
		for k, e := range w {
			n, ok := x[k]
			if !ok {
				return fmt.Sprintf("%s: key %q is gone", what, k)
			}
			if d := differs(n, e, what+"["+strconv.Quote(k)+"]"); d != "" {
				return d
			}
		}
		for k := range x {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s: key %q was added", what, k)
			}
		}
		return ""
	case map[string]string:
		w, ok := was.(map[string]string)
		if !ok {
			break
		}
		if !reflect.DeepEqual(x, w) {
			return fmt.Sprintf("%s: now %v, was %v", what, x, w)
		}
		return ""
	case []any:
		w, ok := was.([]any)
		if !ok {
			break
		}
		x = x[:cap(x)]
		return list(len(x), len(w), func(i int) (any, any) { return x[i], w[i] })
	case []string:
		w, ok := was.([]string)
		if !ok {
			break
		}
		x = x[:cap(x)]
		return list(len(x), len(w), func(i int) (any, any) { return x[i], w[i] })
	case []int:
		w, ok := was.([]int)
		if !ok {
			break
		}
		x = x[:cap(x)]
		return list(len(x), len(w), func(i int) (any, any) { return x[i], w[i] })
	case []map[string]any:
		w, ok := was.([]any)
		if !ok {
			break
		}
		x = x[:cap(x)]
		return list(len(x), len(w), func(i int) (any, any) { return x[i], w[i] })
	default:
		if w, ok := was.(typedSnap); ok {
			if r := reflect.ValueOf(v); r.Kind() == reflect.Slice {
				r = r.Slice(0, r.Cap())
				return list(r.Len(), len(w), func(i int) (any, any) { return r.Index(i).Interface(), w[i] })
			}
			break
		}
		if reflect.TypeOf(v) == reflect.TypeOf(was) && sameAny(v, was) {
			return ""
		}
	}
	return fmt.Sprintf("%s: now %T %.40v, was %T %.40v", what, v, v, was, was)
}
