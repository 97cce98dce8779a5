package main

import "reflect"

// globals are the variables of a package; executions start with their initial values.
type globals struct {
	at   []interface{}
	init []reflect.Value
}

func (g *globals) reset() {
	if g.init == nil {
		for _, p := range g.at {
			g.init = append(g.init, copyOf(reflect.ValueOf(p).Elem()))
		}
	}
	for i, p := range g.at {
		reflect.ValueOf(p).Elem().Set(copyOf(g.init[i]))
	}
}

// copyOf is a copy of a value.
func copyOf(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch {
	case v.Kind() == reflect.Map && !v.IsNil():
		c.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, v.MapIndex(k))
		}
	case v.Kind() == reflect.Slice && !v.IsNil():
		c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		reflect.Copy(c, v)
	default:
		c.Set(v)
	}
	return c
}
