// Package ref is an independent reference model of the Lisp that golisp
// implements: values, reader, printer, evaluator and library. It shares no code
// with golisp.
package ref

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// Val is nil (the empty list), int64, float32, bool, *Str, Sym, *Pair, *Bytes,
// *Frame, *Closure, *Macro, *Prim or *Env.
type Val any

type Sym string
type Str struct{ S string }
type Pair struct {
	Car, Cdr Val
	// Alist marks a cell of the spine of an association list made by the alist
	// primitives, Cell one of its entries.
	Alist, Cell bool
}
type Bytes struct{ B []byte }

// Host is an object of the host program, which the language only passes on.
type Host struct{ ID int }
type Frame struct{ M map[string]Val }
type Closure struct {
	Name   string
	Params Val
	Body   Val
	Env    *Env
}
type Macro struct {
	Name   string
	Params Val
	Body   Val
	Env    *Env
}

func List(v ...Val) Val {
	var r Val
	for i := len(v) - 1; i >= 0; i-- {
		r = &Pair{Car: v[i], Cdr: r}
	}
	return r
}

func ListTail(v []Val, tail Val) Val {
	r := tail
	for i := len(v) - 1; i >= 0; i-- {
		r = &Pair{Car: v[i], Cdr: r}
	}
	return r
}

func Cons(a, d Val) Val { return &Pair{Car: a, Cdr: d} }
func S(s string) Val    { return &Str{s} }
func I(i int) Val       { return int64(i) }

func Car(v Val) Val {
	if p, ok := v.(*Pair); ok {
		return p.Car
	}
	return nil
}
func Cdr(v Val) Val {
	if p, ok := v.(*Pair); ok {
		return p.Cdr
	}
	return nil
}

// IsList: the empty list or a pair.
func IsList(v Val) bool {
	if v == nil {
		return true
	}
	p, ok := v.(*Pair)
	return ok && !p.Cell
}

// Proper tells whether v is a list that ends in ().
func Proper(v Val) bool {
	if !IsList(v) {
		return false
	}
	for v != nil {
		p, ok := v.(*Pair)
		if !ok {
			return false
		}
		v = p.Cdr
	}
	return true
}

// Items gives the elements of a proper list.
func Items(v Val) []Val {
	var r []Val
	for {
		p, ok := v.(*Pair)
		if !ok {
			return r
		}
		r = append(r, p.Car)
		v = p.Cdr
	}
}

func Truth(v Val) bool {
	if v == nil {
		return false
	}
	b, ok := v.(bool)
	return !ok || b
}

func IsNaked(v Val) bool {
	s, ok := v.(Sym)
	return ok && strings.HasSuffix(string(s), ":")
}

func FormatFloat(f float32) string {
	x := float64(f)
	switch {
	case math.IsNaN(x):
		return "nan"
	case math.IsInf(x, 1):
		return "+inf"
	case math.IsInf(x, -1):
		return "-inf"
	}
	s := strconv.FormatFloat(x, 'f', -1, 32)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

// Canon is an unambiguous description of a value, for comparing.
func Canon(v Val) string {
	var b strings.Builder
	canon(&b, v, 0)
	return b.String()
}

func canon(b *strings.Builder, v Val, depth int) {
	if depth > 2000 {
		b.WriteString("...")
		return
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("()")
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float32:
		b.WriteString(FormatFloat(x))
	case bool:
		if x {
			b.WriteString("#t")
		} else {
			b.WriteString("#f")
		}
	case *Str:
		b.WriteString(strconv.Quote(x.S))
	case Sym:
		b.WriteString(string(x))
	case *Pair:
		b.WriteByte('(')
		first := true
		var c Val = x
		n := 0
		for {
			p, ok := c.(*Pair)
			if !ok || n > 5000 {
				break
			}
			if !first {
				b.WriteByte(' ')
			}
			first = false
			canon(b, p.Car, depth+1)
			c = p.Cdr
			n++
		}
		if c != nil {
			b.WriteString(" . ")
			if _, ok := c.(*Pair); ok {
				// count the rest and show its last element
				var last Val
				for n = 0; n < 200000; n++ {
					p, ok := c.(*Pair)
					if !ok {
						break
					}
					last, c = p.Car, p.Cdr
				}
				b.WriteString("..." + strconv.Itoa(n) + " ")
				if n < 200000 {
					canon(b, last, depth+1)
				}
			} else {
				canon(b, c, depth+1)
			}
		}
		b.WriteByte(')')
	case *Bytes:
		b.WriteByte('[')
		for i, e := range x.B {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Itoa(int(e)))
		}
		b.WriteByte(']')
	case *Frame:
		b.WriteByte('{')
		ks := make([]string, 0, len(x.M))
		for k := range x.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k)
			b.WriteByte(' ')
			if depth > 30 {
				b.WriteString("...")
			} else {
				canon(b, x.M[k], depth+1)
			}
		}
		b.WriteByte('}')
	case *Closure:
		b.WriteString("<fn>")
	case *Macro:
		b.WriteString("<macro>")
	case *Prim:
		b.WriteString("<prim " + x.Name + ">")
	case *Env:
		b.WriteString("<env>")
	case *Host:
		b.WriteString("<Host>")
	default:
		b.WriteString("<?>")
	}
}

// Print is how the printer shows data that can be read back.
func Print(v Val) string {
	switch x := v.(type) {
	case *Str:
		r := strings.NewReplacer(`\`, `\\`, `"`, `\"`)
		return `"` + r.Replace(x.S) + `"`
	case *Pair:
		it := Items(x)
		var tail Val = x
		for {
			p, ok := tail.(*Pair)
			if !ok {
				break
			}
			tail = p.Cdr
		}
		if tail == nil && len(it) == 2 && it[0] == Sym("quote") {
			return "'" + Print(it[1])
		}
		if tail == nil && len(it) == 1 && it[0] == Sym("quote") {
			return "'()"
		}
		s := make([]string, len(it))
		for i, e := range it {
			s[i] = Print(e)
		}
		if tail != nil {
			return "(" + strings.Join(s, " ") + " . " + Print(tail) + ")"
		}
		return "(" + strings.Join(s, " ") + ")"
	case *Frame:
		ks := make([]string, 0, len(x.M))
		for k := range x.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := make([]string, len(ks))
		for i, k := range ks {
			s[i] = k + " " + Print(x.M[k])
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return Canon(v)
}

// Equal is the equality of ==, equal? and so on.
func Equal(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && x.S == y.S
	case Sym:
		y, ok := b.(Sym)
		return ok && x == y
	case *Bytes:
		y, ok := b.(*Bytes)
		return ok && string(x.B) == string(y.B)
	case *Pair:
		y, ok := b.(*Pair)
		if !ok {
			return false
		}
		if x.Alist || y.Alist {
			return alistEqual(x, y)
		}
		return Equal(x.Car, y.Car) && Equal(x.Cdr, y.Cdr)
	case *Frame:
		y, ok := b.(*Frame)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.M) != len(y.M) {
			return false
		}
		for k, v := range x.M {
			w, ok := y.M[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	}
	return a == b
}

// alistEqual compares association lists without regard to the order of keys.
func alistEqual(x, y *Pair) bool {
	if x.Cell || y.Cell {
		return false
	}
	xi, yi := Items(x), Items(y)
	if len(xi) != len(yi) {
		return false
	}
	if !x.Alist {
		xi, yi = yi, xi
	}
	for _, e := range xi {
		found := false
		for _, f := range yi {
			q, ok := f.(*Pair)
			if !ok {
				return false
			}
			if Equal(Car(e), q.Car) {
				found = Equal(Cdr(e), q.Cdr)
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// Copy is a deep copy.
func Copy(v Val) Val {
	switch x := v.(type) {
	case *Str:
		return &Str{x.S}
	case *Pair:
		return &Pair{Car: Copy(x.Car), Cdr: Copy(x.Cdr), Alist: x.Alist, Cell: x.Cell}
	case *Bytes:
		return &Bytes{append([]byte{}, x.B...)}
	case *Frame:
		m := make(map[string]Val, len(x.M))
		for k, e := range x.M {
			m[k] = Copy(e)
		}
		return &Frame{m}
	}
	return v
}
