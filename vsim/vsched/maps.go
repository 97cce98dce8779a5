package vsched

import "reflect"

// A map of the explored code is accessed in a window with a scheduling point in
// it. Two windows that overlap, one of them for a write, are accesses that can
// happen at the same time: the Go runtime then ends the process.
type mapAccess struct {
	t *Task
	p uintptr
	w bool
}

// MapR precedes a read of an entry.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if s != nil && s.cfg.MapYield {
		touch(reflect.ValueOf(m).Pointer(), false)
	}
	return m
}

// MapW precedes a write of an entry.
func MapW[M ~map[K]V, K comparable, V any](m M) M {
	if s != nil && s.cfg.MapYield {
		touch(reflect.ValueOf(m).Pointer(), true)
	}
	return m
}

func touch(p uintptr, w bool) {
	if !Active() || s.cur.killed || p == 0 || s.cfg.MapNode != "" && s.cfg.MapNode != s.cur.Node {
		return
	}
	for _, a := range s.maps {
		if a.p == p && a.t != s.cur && !a.t.killed && !a.t.done && (a.w || w) {
			panic("fatal error: concurrent accesses to a map")
		}
	}
	a := &mapAccess{s.cur, p, w}
	s.maps = append(s.maps, a)
	my := s
	defer func() {
		for i, b := range my.maps {
			if b == a {
				my.maps = append(my.maps[:i:i], my.maps[i+1:]...)
				break
			}
		}
	}()
	my.atMap = true
	Yield()
}

// Touching reports whether a task of the node accesses a map now.
func Touching(node string) bool {
	if s != nil {
		for _, a := range s.maps {
			if a.t.Node == node && !a.t.killed && !a.t.done {
				return true
			}
		}
	}
	return false
}
