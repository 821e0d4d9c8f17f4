// Package astx inspects syntax trees by reflection, so that the monitors see
// every field of every node without relying on the traversal code under test.
package astx

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	ch "github.com/AfterShip/clickhouse-sql-parser/parser"
)

var (
	posType  = reflect.TypeOf(ch.Pos(0))
	exprType = reflect.TypeOf((*ch.Expr)(nil)).Elem()
)

// A tinfo is what the walks ask about a type, asked once.
type tinfo struct {
	name   string
	isExpr bool // the type is an Expr
	ptr    bool // its pointer is
	fields []string
	full   []string // Type.Field
	hidden []bool
}

var infos sync.Map // reflect.Type to *tinfo

func info(t reflect.Type) *tinfo {
	if x, ok := infos.Load(t); ok {
		return x.(*tinfo)
	}
	x := &tinfo{name: t.Name(), isExpr: t.Implements(exprType)}
	if t.Kind() == reflect.Struct {
		x.ptr = reflect.PointerTo(t).Implements(exprType)
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			x.fields = append(x.fields, f.Name)
			x.full = append(x.full, t.Name()+"."+f.Name)
			x.hidden = append(x.hidden, f.PkgPath != "")
		}
	}
	infos.Store(t, x)
	return x
}

// Equal compares two trees field by field. Position fields (type parser.Pos)
// are ignored when ignorePos is set. It returns "" when equal, else a path.
func Equal(a, b interface{}, ignorePos bool) string {
	if d := eq(reflect.ValueOf(a), reflect.ValueOf(b), ignorePos); d != "" {
		return "root" + d
	}
	return ""
}

// Diff is Equal that also names the innermost struct field that differs.
func Diff(a, b interface{}, ignorePos bool) (path, site string) {
	d := Equal(a, b, ignorePos)
	if d == "" {
		return "", ""
	}
	// follow the path down from a
	p := d
	if i := strings.Index(p, ": "); i >= 0 {
		p = p[:i]
	}
	v := reflect.ValueOf(a)
	for _, step := range strings.Split(p, ".")[1:] {
		idx := -1
		if i := strings.IndexByte(step, '['); i >= 0 {
			fmt.Sscanf(step[i:], "[%d]", &idx)
			step = step[:i]
		}
		for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			break
		}
		site = v.Type().Name() + "." + step
		v = v.FieldByName(step)
		if idx >= 0 && v.IsValid() && v.Kind() == reflect.Slice && idx < v.Len() {
			v = v.Index(idx)
		}
		if !v.IsValid() {
			break
		}
	}
	if site == "" {
		site = "root"
	}
	return d, site
}

func eq(a, b reflect.Value, ip bool) string {
	if a.IsValid() != b.IsValid() {
		return ": one side is nil"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf(": %s vs %s", a.Type(), b.Type())
	}
	if ip && a.Type() == posType {
		return ""
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return ": one side is nil"
		}
		if a.IsNil() {
			return ""
		}
		return eq(a.Elem(), b.Elem(), ip)
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return ": one side is nil"
		}
		if a.IsNil() {
			return ""
		}
		return eq(a.Elem(), b.Elem(), ip)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := eq(a.Field(i), b.Field(i), ip); d != "" {
				return "." + a.Type().Field(i).Name + d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf(": len %d vs %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := eq(a.Index(i), b.Index(i), ip); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
		return ""
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf(": map len %d vs %d", a.Len(), b.Len())
		}
		it := a.MapRange()
		for it.Next() {
			bv := b.MapIndex(it.Key())
			if !bv.IsValid() {
				return ": map key missing"
			}
			if d := eq(it.Value(), bv, ip); d != "" {
				return "[]" + d
			}
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf(": %q vs %q", a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf(": %v vs %v", a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf(": %d vs %d", a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf(": %d vs %d", a.Uint(), b.Uint())
		}
	case reflect.Func:
	}
	return ""
}

// Dump renders a tree, with or without positions, as stable text.
func Dump(v interface{}, withPos bool) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), withPos)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, wp bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), wp)
	case reflect.Struct:
		b.WriteString(info(v.Type()).name)
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == posType && !wp {
				continue
			}
			if f.IsZero() {
				continue
			}
			b.WriteString(info(v.Type()).fields[i])
			b.WriteByte(':')
			dump(b, f, wp)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), wp)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	default:
		b.WriteString(v.Kind().String())
	}
}

// Node is one syntax node found by reflection.
type Node struct {
	Expr   ch.Expr
	Parent *Node
	Field  string // field of the parent that holds it
	Inline bool   // held by value inside its parent, not by pointer
	Depth  int
}

func (n *Node) Type() string { return TypeName(n.Expr) }

// TypeName is the bare type name of a node.
func TypeName(e ch.Expr) string {
	t := reflect.TypeOf(e)
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t.Name()
}

// IsNil reports a nil interface or a typed nil pointer.
func IsNil(e ch.Expr) bool {
	if e == nil {
		return true
	}
	v := reflect.ValueOf(e)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// Nodes lists every node reachable from root, in depth-first field order.
// Helper structs that are not nodes themselves are looked through.
func Nodes(root ch.Expr) []*Node {
	var out []*Node
	var visit func(v reflect.Value, parent *Node, field string)
	visit = func(v reflect.Value, parent *Node, field string) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				visit(v.Elem(), parent, field)
			}
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			p := parent
			if info(v.Type()).isExpr {
				p = &Node{Expr: v.Interface().(ch.Expr), Parent: parent, Field: field}
				if parent != nil {
					p.Depth = parent.Depth + 1
				}
				out = append(out, p)
			}
			e := v.Elem()
			if e.Kind() == reflect.Struct {
				in := info(e.Type())
				for i, name := range in.fields {
					if in.hidden[i] {
						continue
					}
					visit(e.Field(i), p, name)
				}
			}
		case reflect.Struct:
			if v.CanAddr() && info(v.Type()).ptr {
				p := &Node{Expr: v.Addr().Interface().(ch.Expr), Parent: parent, Field: field, Inline: true}
				if parent != nil {
					p.Depth = parent.Depth + 1
				}
				out = append(out, p)
				parent = p
			}
			in := info(v.Type())
			for i, name := range in.fields {
				if in.hidden[i] {
					continue
				}
				visit(v.Field(i), parent, field+"."+name)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				visit(v.Index(i), parent, field)
			}
		}
	}
	visit(reflect.ValueOf(root), nil, "")
	return out
}

// Census counts the nodes (and helper structs) of each type.
func Census(root ch.Expr) map[string]int {
	out := map[string]int{}
	for _, n := range Nodes(root) {
		out[n.Type()]++
	}
	return out
}

// Clone deep-copies a tree.
func Clone(e ch.Expr) ch.Expr {
	return clone(reflect.ValueOf(e)).Interface().(ch.Expr)
}

func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type()).Elem()
		out.Set(clone(v.Elem()))
		return out
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type().Elem())
		out.Elem().Set(clone(v.Elem()))
		return out
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		out.Set(v)
		in := info(v.Type())
		for i := range in.fields {
			if in.hidden[i] {
				continue
			}
			out.Field(i).Set(clone(v.Field(i)))
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(clone(v.Index(i)))
		}
		return out
	}
	return v
}

// Leaves lists every string in the tree with the chain of Type.Field steps
// that leads to it.
func Leaves(root interface{}) map[string][][]string {
	out := map[string][][]string{}
	var walk func(v reflect.Value, chain []string)
	walk = func(v reflect.Value, chain []string) {
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem(), chain)
			}
		case reflect.Struct:
			for i, name := range info(v.Type()).full {
				walk(v.Field(i), append(chain[:len(chain):len(chain)], name))
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), chain)
			}
		case reflect.String:
			if v.Len() > 0 {
				out[v.String()] = append(out[v.String()], chain)
			}
		}
	}
	walk(reflect.ValueOf(root), nil)
	return out
}

// Canon copies a tree and evens out what the formatter is known to settle: the
// options of a JSON type come out as limits, columns, skips, and the AS inside
// CAST in upper case.
func Canon(e ch.Expr) ch.Expr {
	c := Clone(e)
	for _, n := range Nodes(c) {
		switch x := n.Expr.(type) {
		case *ch.CastExpr:
			x.Separator = strings.ToUpper(x.Separator)
		case *ch.JSONType:
			if o := x.Options; o != nil {
				sort.SliceStable(o.Items, func(i, j int) bool { return jsonRank(o.Items[i]) < jsonRank(o.Items[j]) })
			}
		}
	}
	return c
}

func jsonRank(o *ch.JSONOption) int {
	switch {
	case o.MaxDynamicPaths != nil:
		return 0
	case o.MaxDynamicTypes != nil:
		return 0
	case o.Column != nil:
		return 2
	case o.SkipPath != nil:
		return 3
	}
	return 3
}

// EqualFold is Equal with the letter case of strings and the positions ignored.
func EqualFold(a, b interface{}) string {
	x, y := strings.ToLower(Dump(a, false)), strings.ToLower(Dump(b, false))
	if x == y {
		return ""
	}
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 60
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return cut(x) + " vs " + cut(y)
}

// MapStrings replaces every string of a tree.
func MapStrings(e ch.Expr, f func(string) string) { mapStrings(reflect.ValueOf(e), f) }

func mapStrings(v reflect.Value, f func(string) string) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			mapStrings(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				mapStrings(v.Field(i), f)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			mapStrings(v.Index(i), f)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(f(v.String()))
		}
	}
}
