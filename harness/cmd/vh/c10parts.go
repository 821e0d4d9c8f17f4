package main

import (
	"fmt"
	"reflect"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"

	"verif/harness/ref"
)

type placed interface {
	Pos() ch.Pos
	End() ch.Pos
}

// parts looks at what has a place in the text without being a node: it starts
// at a token, and what it holds starts inside it.
func (p *posRun) parts(sql string, root ch.Expr, toks []ref.Tok) {
	starts := map[int]bool{}
	for _, t := range toks {
		starts[t.Start] = true
		if t.Kind == ref.String || t.Kind == ref.Quoted {
			starts[t.Start+1] = true
		}
	}
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, in []placed)
	walk = func(v reflect.Value, in []placed) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), in)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), in)
			}
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if v.CanInterface() && v.Elem().Kind() == reflect.Struct {
				x, has := v.Interface().(placed)
				_, node := v.Interface().(ch.Expr)
				if has {
					pos, end := int(x.Pos()), int(x.End())
					name := v.Elem().Type().Name()
					for _, o := range in {
						op, oe := int(o.Pos()), int(o.End())
						if pos < op || pos >= oe && !node {
							p.bad("a part is not inside what holds it", name+" in "+reflect.TypeOf(o).Elem().Name(), sql, fmt.Sprintf("%d-%d in %d-%d", pos, end, op, oe))
						}
					}
					in = nil
					if !node {
						p.r.Event("parts that are no nodes looked at", 1)
						if !starts[pos] || end < pos || end > len(sql) {
							p.bad("a part is at a wrong place", name, sql, fmt.Sprintf("%d-%d of %d", pos, end, len(sql)))
						}
						in = []placed{x}
					}
				}
			}
			walk(v.Elem(), in)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), in)
				}
			}
		}
	}
	walk(reflect.ValueOf(root), nil)
}
