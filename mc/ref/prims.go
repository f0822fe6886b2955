package ref

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

func sortedKeys(m map[string]Val) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// items gives the elements of a list; what the library does with an improper
// one is left open.
func (it *Interp) items(v Val) []Val {
	var r []Val
	n := 0
	for {
		p, ok := v.(*Pair)
		if !ok {
			break
		}
		r = append(r, p.Car)
		v = p.Cdr
		if n++; n > 100000 {
			it.Quirk = "cyclic"
			return r
		}
	}
	if v != nil {
		it.Quirk = "improper list"
	}
	return r
}

type A = []Val

func intArg(v Val) (int64, bool) { n, ok := v.(int64); return n, ok }

// asInt and asFloat are the conversions of numbers; other values count as 0.
func asFloat(v Val) float32 {
	switch x := v.(type) {
	case int64:
		return float32(x)
	case float32:
		return x
	}
	return 0
}

func isNum(v Val) bool {
	switch v.(type) {
	case int64, float32:
		return true
	}
	return false
}

func pred(names string, f func(v Val) bool) {
	def(names, "1", func(it *Interp, a A, env *Env) (Val, error) { return f(a[0]), nil })
}

func walk(v Val, path string) Val {
	for i := len(path) - 1; i >= 0; i-- {
		if path[i] == 'a' {
			v = Car(v)
		} else {
			v = Cdr(v)
		}
	}
	return v
}

func (it *Interp) lists(a A) ([][]Val, int, error) {
	n := -1
	var ls [][]Val
	for _, v := range a {
		if !IsList(v) {
			return nil, 0, lerr("list expected")
		}
		l := it.items(v)
		ls = append(ls, l)
		if n < 0 || len(l) < n {
			n = len(l)
		}
	}
	return ls, n, nil
}

func column(ls [][]Val, i int) []Val {
	r := make([]Val, len(ls))
	for j, l := range ls {
		r[j] = l[i]
	}
	return r
}

func alistFind(it *Interp, key, l Val) (*Pair, error) {
	for _, e := range it.items(l) {
		if e == nil {
			if key == nil {
				it.Quirk = "empty entry"
			}
			continue
		}
		p, ok := e.(*Pair)
		if !ok {
			return nil, lerr("alist")
		}
		if Equal(p.Car, key) {
			return p, nil
		}
	}
	return nil, nil
}

// acons: an association list in which key has the value.
func acons(it *Interp, k, v, l Val) Val {
	p, err := alistFind(it, k, l)
	if err != nil {
		it.Quirk = "acons to something that is no association list"
	}
	if p != nil {
		p.Cdr = v
		return l
	}
	return &Pair{Car: &Pair{Car: k, Cdr: v, Cell: true}, Cdr: l, Alist: true}
}

func num(v Val) (int64, bool) { n, ok := v.(int64); return n, ok }

func arith(names string, i func(a []int64) (int64, bool), f func(a []float32) (float32, bool)) {
	def(names, "*", func(it *Interp, a A, env *Env) (Val, error) {
		fl := false
		for _, x := range a {
			if !isNum(x) {
				return nil, lerr("number")
			}
			if _, ok := x.(float32); ok {
				fl = true
			}
		}
		if fl {
			fs := make([]float32, len(a))
			for i, x := range a {
				fs[i] = asFloat(x)
			}
			r, ok := f(fs)
			if !ok {
				return nil, lerr("division")
			}
			return r, nil
		}
		is := make([]int64, len(a))
		for i, x := range a {
			is[i] = x.(int64)
		}
		r, ok := i(is)
		if !ok {
			return nil, lerr("division")
		}
		return r, nil
	})
}

func compare(name string, i func(a, b int64) bool, f func(a, b float32) bool) {
	def(name, "2", func(it *Interp, a A, env *Env) (Val, error) {
		if !isNum(a[0]) || !isNum(a[1]) {
			return nil, lerr("number")
		}
		x, ok := a[0].(int64)
		y, ok2 := a[1].(int64)
		if ok && ok2 {
			return i(x, y), nil
		}
		return f(asFloat(a[0]), asFloat(a[1])), nil
	})
}

func strArgs(a A) ([]string, error) {
	r := make([]string, len(a))
	for i, v := range a {
		s, ok := v.(*Str)
		if !ok {
			return nil, lerr("string")
		}
		r[i] = s.S
	}
	return r, nil
}

func str1(names string, f func(s string) Val) {
	def(names, "1", func(it *Interp, a A, env *Env) (Val, error) {
		s, err := strArgs(a)
		if err != nil {
			return nil, err
		}
		return f(s[0]), nil
	})
}

func strSet(names string, f func(s string) string) {
	def(names, "1", func(it *Interp, a A, env *Env) (Val, error) {
		s, ok := a[0].(*Str)
		if !ok {
			return nil, lerr("string")
		}
		s.S = f(s.S)
		return s, nil
	})
}

func str2(names string, f func(a, b string) Val) {
	def(names, "2", func(it *Interp, a A, env *Env) (Val, error) {
		s, err := strArgs(a)
		if err != nil {
			return nil, err
		}
		return f(s[0], s[1]), nil
	})
}

func capitalize(s string) string {
	_, n := utf8.DecodeRuneInString(s)
	return strings.ToUpper(s[:n]) + strings.ToLower(s[n:])
}

// PrintString is the form in which str and write-string show a value.
func PrintString(v Val) string {
	if s, ok := v.(*Str); ok {
		return s.S
	}
	return Print(v)
}

func bytesOf(it *Interp, l Val) ([]byte, error) {
	if l == nil || !IsList(l) {
		return nil, lerr("bytes")
	}
	b := []byte{}
	for _, x := range it.items(l) {
		switch y := x.(type) {
		case int64:
			if y < 0 || y > 255 {
				return nil, lerr("byte")
			}
			b = append(b, byte(y))
		case *Bytes:
			b = append(b, y.B...)
		default:
			return nil, lerr("byte")
		}
	}
	return b, nil
}

func sgn(f float32) int64 {
	if f < 0 {
		return -1
	}
	if f > 0 {
		return 1
	}
	return 0
}

func init() {
	pred("atom?", func(v Val) bool {
		switch v.(type) {
		case int64, float32, bool, *Str, Sym:
			return true
		}
		return false
	})
	pred("list? pair?", isPlainList)
	pred("alist?", func(v Val) bool { p, ok := v.(*Pair); return ok && p.Alist })
	pred("nil? null?", func(v Val) bool { return v == nil })
	pred("notnil? notnull?", func(v Val) bool { return v != nil })
	pred("symbol?", func(v Val) bool { _, ok := v.(Sym); return ok })
	pred("string?", func(v Val) bool { _, ok := v.(*Str); return ok })
	pred("integer?", func(v Val) bool { _, ok := v.(int64); return ok })
	pred("number?", isNum)
	pred("float?", func(v Val) bool { _, ok := v.(float32); return ok })
	pred("function?", isFn)
	pred("macro?", func(v Val) bool { _, ok := v.(*Macro); return ok })
	pred("frame?", func(v Val) bool { _, ok := v.(*Frame); return ok })
	pred("bytearray?", func(v Val) bool { _, ok := v.(*Bytes); return ok })
	pred("boolean?", func(v Val) bool { _, ok := v.(bool); return ok })
	pred("port?", func(v Val) bool { return false })
	pred("environment?", func(v Val) bool { _, ok := v.(*Env); return ok })
	pred("not !", func(v Val) bool { return !Truth(v) })
	def("== eq? eqv? equal?", "2", func(it *Interp, a A, env *Env) (Val, error) { return Equal(a[0], a[1]), nil })
	def("!= neq?", "2", func(it *Interp, a A, env *Env) (Val, error) { return !Equal(a[0], a[1]), nil })

	// list access
	for n := 1; n <= 4; n++ {
		for i := 0; i < 1<<n; i++ {
			path := ""
			for j := 0; j < n; j++ {
				path += string("ad"[i>>j&1])
			}
			p := path
			names := "c" + path + "r"
			if path == "a" {
				names += " head"
			} else if path == "d" {
				names += " rest tail"
			}
			def(names, "1", func(it *Interp, a A, env *Env) (Val, error) { return walk(a[0], p), nil })
		}
	}
	def("general-car-cdr", "2", func(it *Interp, a A, env *Env) (Val, error) {
		n, ok := a[1].(int64)
		if !ok || n <= 0 {
			return nil, lerr("path")
		}
		v := a[0]
		for ; n != 1; n >>= 1 {
			if n&1 == 0 {
				v = Cdr(v)
			} else {
				v = Car(v)
			}
		}
		return v, nil
	})
	for i, n := range strings.Fields("first second third fourth fifth sixth seventh eighth ninth tenth") {
		i := i
		def(n, "1", func(it *Interp, a A, env *Env) (Val, error) {
			if !IsList(a[0]) {
				return nil, nil
			}
			return nthItem(it.items(a[0]), i), nil
		})
	}
	nth := func(base int64) func(it *Interp, a A, env *Env) (Val, error) {
		return func(it *Interp, a A, env *Env) (Val, error) {
			n, ok := a[1].(int64)
			if !isPlainList(a[0]) || !ok {
				return nil, lerr("nth")
			}
			l := it.items(a[0])
			if n < base || n-base >= int64(len(l)) {
				return nil, nil
			}
			return l[n-base], nil
		}
	}
	def("nth", "2", nth(1))
	def("list-ref", "2", nth(0))
	clamp := func(n int64, l int) int {
		if n < 0 {
			return 0
		}
		if n > int64(l) {
			return l
		}
		return int(n)
	}
	take := func(it *Interp, nv, l Val, bytes bool, drop bool) (Val, error) {
		n, ok := nv.(int64)
		if !ok {
			return nil, lerr("take")
		}
		if b, ok := l.(*Bytes); ok && bytes {
			k := clamp(n, len(b.B))
			if drop {
				return &Bytes{append([]byte{}, b.B[k:]...)}, nil
			}
			return &Bytes{append([]byte{}, b.B[:k]...)}, nil
		}
		if !IsList(l) {
			return nil, lerr("take")
		}
		x := it.items(l)
		k := clamp(n, len(x))
		if !drop {
			return List(x[:k]...), nil
		}
		for ; k > 0; k-- {
			l = Cdr(l)
		}
		return l, nil
	}
	def("take", "2", func(it *Interp, a A, env *Env) (Val, error) { return take(it, a[0], a[1], true, false) })
	def("drop", "2", func(it *Interp, a A, env *Env) (Val, error) { return take(it, a[0], a[1], true, true) })
	def("list-head", "2", func(it *Interp, a A, env *Env) (Val, error) { return take(it, a[1], a[0], false, false) })
	def("list-tail", "2", func(it *Interp, a A, env *Env) (Val, error) { return take(it, a[1], a[0], false, true) })
	def("last-pair", "1", func(it *Interp, a A, env *Env) (Val, error) {
		if a[0] == nil || !IsList(a[0]) {
			return nil, lerr("last-pair")
		}
		v := a[0].(*Pair)
		for {
			p, ok := v.Cdr.(*Pair)
			if !ok {
				return v, nil
			}
			v = p
		}
	})

	// construction
	def("list", "*", func(it *Interp, a A, env *Env) (Val, error) { return List(a...), nil })
	def("cons", "2", func(it *Interp, a A, env *Env) (Val, error) { return Cons(a[0], a[1]), nil })
	def("cons*", ">=1", func(it *Interp, a A, env *Env) (Val, error) { return ListTail(a[:len(a)-1], a[len(a)-1]), nil })
	def("make-list", "1|2", func(it *Interp, a A, env *Env) (Val, error) {
		n, ok := a[0].(int64)
		if !ok || n < 0 {
			return nil, lerr("make-list")
		}
		if n > 200000 {
			return nil, ErrBudget
		}
		l := make([]Val, n)
		for i := range l {
			l[i] = nthItem(a, 1)
		}
		return List(l...), nil
	})
	def("length", "1", func(it *Interp, a A, env *Env) (Val, error) {
		switch x := a[0].(type) {
		case *Pair:
			if x.Cell {
				return int64(0), nil
			}
			return int64(len(it.items(x))), nil
		case *Bytes:
			return int64(len(x.B)), nil
		case *Frame:
			return int64(len(x.M)), nil
		}
		return int64(0), nil
	})
	def("reverse", "1", func(it *Interp, a A, env *Env) (Val, error) {
		if !IsList(a[0]) {
			return a[0], nil
		}
		var r Val
		for _, x := range it.items(a[0]) {
			r = Cons(x, r)
		}
		return r, nil
	})
	var flatten func(it *Interp, v Val, deep bool) Val
	flatten = func(it *Interp, v Val, deep bool) Val {
		if !IsList(v) {
			return v
		}
		var out []Val
		for _, e := range it.items(v) {
			if e == nil {
				out = append(out, nil) // an empty list stays
			} else if IsList(e) {
				if deep {
					e = flatten(it, e, true)
				}
				out = append(out, it.items(e)...)
			} else {
				out = append(out, e)
			}
		}
		return List(out...)
	}
	def("flatten", "1", func(it *Interp, a A, env *Env) (Val, error) { return flatten(it, a[0], false), nil })
	def("flatten*", "1", func(it *Interp, a A, env *Env) (Val, error) { return flatten(it, a[0], true), nil })
	def("append", "*", func(it *Interp, a A, env *Env) (Val, error) {
		var out []Val
		for _, e := range a {
			if IsList(e) {
				out = append(out, it.items(e)...)
			} else {
				out = append(out, e)
			}
		}
		return List(out...), nil
	})
	form("append!", "2", func(it *Interp, a A, env *Env) (Val, error) {
		l, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		m, err := it.Eval(a[1], env)
		if err != nil {
			return nil, err
		}
		if !IsList(m) {
			m = Cons(m, nil)
		}
		r := l
		if l == nil {
			r = m
		} else {
			if !IsList(l) {
				return nil, lerr("append!")
			}
			p := l.(*Pair)
			for p.Cdr != nil {
				q, ok := p.Cdr.(*Pair)
				if !ok || q.Cell {
					return nil, lerr("append!")
				}
				p = q
			}
			p.Cdr = m
		}
		if s, ok := a[0].(Sym); ok {
			if err := env.Set(string(s), r); err != nil {
				return nil, err
			}
		}
		return r, nil
	})
	def("copy", "1", func(it *Interp, a A, env *Env) (Val, error) { return Copy(a[0]), nil })
	def("partition", "2", func(it *Interp, a A, env *Env) (Val, error) {
		n, ok := a[0].(int64)
		if !ok && !isFn(a[0]) || !IsList(a[1]) {
			return nil, lerr("partition")
		}
		l := it.items(a[1])
		if ok {
			if n < 1 {
				return nil, lerr("partition")
			}
			var out []Val
			for len(l) > 0 {
				k := clamp(n, len(l))
				out = append(out, List(l[:k]...))
				l = l[k:]
			}
			return List(out...), nil
		}
		var t, f []Val
		for _, x := range l {
			r, err := it.Apply(a[0], A{x}, env)
			if err != nil {
				return nil, err
			}
			if Truth(r) {
				t = append(t, x)
			} else {
				f = append(f, x)
			}
		}
		return List(List(t...), List(f...)), nil
	})
	def("sublist", "3", func(it *Interp, a A, env *Env) (Val, error) {
		i, ok := a[1].(int64)
		j, ok2 := a[2].(int64)
		if !IsList(a[0]) || !ok || !ok2 || i <= 0 || j <= 0 {
			return nil, lerr("sublist")
		}
		l := it.items(a[0])
		s, e := clamp(i-1, len(l)), clamp(j-1, len(l))
		if s >= e {
			return nil, nil
		}
		return List(l[s:e]...), nil
	})
	def("sort", "2", func(it *Interp, a A, env *Env) (Val, error) {
		if !IsList(a[0]) || !isFn(a[1]) {
			return nil, lerr("sort")
		}
		l := append([]Val{}, it.items(a[0])...)
		var err error
		before := func(x, y Val) bool {
			if err != nil {
				return false
			}
			var r Val
			r, err = it.Apply(a[1], A{x, y}, env)
			return err == nil && Truth(r)
		}
		sort.SliceStable(l, func(i, j int) bool { return before(l[i], l[j]) })
		if err != nil {
			return nil, err
		}
		for i := 1; i < len(l); i++ {
			if before(l[i-1], l[i]) && before(l[i], l[i-1]) && Canon(l[i-1]) != Canon(l[i]) {
				it.Quirk = "sorting by what is no strict order"
			}
		}
		return List(l...), nil
	})

	// higher order
	each := func(name string, init func(ls [][]Val) (Val, bool), step func(r Val) (Val, bool), fin func(all []Val) Val) {
		def(name, ">=2", func(it *Interp, a A, env *Env) (Val, error) {
			if !isFn(a[0]) {
				return nil, lerr(name)
			}
			if name == "map" {
				for _, l := range a[1:] {
					if !IsList(l) {
						return nil, lerr(name)
					}
					if l == nil {
						return nil, nil
					}
				}
			}
			ls, n, err := it.lists(a[1:])
			if err != nil {
				return nil, err
			}
			var out []Val
			for i := 0; i < n; i++ {
				r, err := it.Apply(a[0], column(ls, i), env)
				if err != nil {
					return nil, err
				}
				if v, done := step(r); done {
					return v, nil
				}
				out = append(out, r)
			}
			return fin(out), nil
		})
	}
	never := func(r Val) (Val, bool) { return nil, false }
	each("map", nil, never, func(all []Val) Val { return List(all...) })
	each("for-each", nil, never, func(all []Val) Val { return nil })
	each("any", nil, func(r Val) (Val, bool) { return true, Truth(r) }, func(all []Val) Val { return false })
	each("every", nil, func(r Val) (Val, bool) { return false, !Truth(r) }, func(all []Val) Val { return true })
	fold := func(names string, right, reduce bool) {
		def(names, "3", func(it *Interp, a A, env *Env) (Val, error) {
			if !isFn(a[0]) || !IsList(a[2]) {
				return nil, lerr("fold")
			}
			l := it.items(a[2])
			acc := a[1]
			if reduce {
				if len(l) == 0 {
					return acc, nil
				}
				if right {
					acc, l = l[len(l)-1], l[:len(l)-1]
				} else {
					acc, l = l[0], l[1:]
				}
			}
			for i := range l {
				var err error
				if right {
					acc, err = it.Apply(a[0], A{l[len(l)-1-i], acc}, env)
				} else {
					acc, err = it.Apply(a[0], A{acc, l[i]}, env)
				}
				if err != nil {
					return nil, err
				}
			}
			return acc, nil
		})
	}
	fold("reduce reduce-left", false, true)
	fold("reduce-right", true, true)
	fold("fold-left", false, false)
	fold("fold-right", true, false)
	search := func(names string, fn func(it *Interp, cell *Pair, hit bool, out *[]Val) (Val, bool), fin func(out []Val) Val) {
		def(names, "2", func(it *Interp, a A, env *Env) (Val, error) {
			if !isFn(a[0]) || !IsList(a[1]) {
				return nil, lerr("search")
			}
			it.items(a[1])
			var out []Val
			for c, ok := a[1].(*Pair); ok; c, ok = c.Cdr.(*Pair) {
				r, err := it.Apply(a[0], A{c.Car}, env)
				if err != nil {
					return nil, err
				}
				b, ok := r.(bool)
				if !ok {
					return nil, lerr("predicate")
				}
				if v, done := fn(it, c, b, &out); done {
					return v, nil
				}
			}
			return fin(out), nil
		})
	}
	search("filter", func(it *Interp, c *Pair, hit bool, out *[]Val) (Val, bool) {
		if hit {
			*out = append(*out, c.Car)
		}
		return nil, false
	}, func(out []Val) Val { return List(out...) })
	search("remove", func(it *Interp, c *Pair, hit bool, out *[]Val) (Val, bool) {
		if !hit {
			*out = append(*out, c.Car)
		}
		return nil, false
	}, func(out []Val) Val { return List(out...) })
	search("find", func(it *Interp, c *Pair, hit bool, out *[]Val) (Val, bool) { return c.Car, hit }, func(out []Val) Val { return false })
	search("find-tail memp", func(it *Interp, c *Pair, hit bool, out *[]Val) (Val, bool) { return c, hit }, func(out []Val) Val { return false })
	def("memq memv member", "2", func(it *Interp, a A, env *Env) (Val, error) {
		if _, ok := a[1].(*Pair); !ok && a[1] != nil {
			it.Quirk = "search in something that is no list"
		}
		for c, ok := a[1].(*Pair); ok; c, ok = c.Cdr.(*Pair) {
			if Equal(a[0], c.Car) {
				return c, nil
			}
			if c.Cdr != nil {
				if _, ok := c.Cdr.(*Pair); !ok {
					it.Quirk = "improper list"
				}
			}
		}
		return false, nil
	})

	// sets
	in := func(x Val, l []Val) bool {
		for _, y := range l {
			if Equal(x, y) {
				return true
			}
		}
		return false
	}
	def("union", "*", func(it *Interp, a A, env *Env) (Val, error) {
		var out []Val
		for _, l := range a {
			if !IsList(l) {
				return nil, lerr("union")
			}
			for _, x := range it.items(l) {
				if !in(x, out) {
					out = append(out, x)
				}
			}
		}
		return List(out...), nil
	})
	keep := func(name string, want bool) {
		def(name, "*", func(it *Interp, a A, env *Env) (Val, error) {
			if len(a) == 0 {
				return nil, nil
			}
			if !IsList(a[0]) {
				return nil, lerr(name)
			}
			out := it.items(Copy(a[0]))
			for _, l := range a[1:] {
				if !IsList(l) {
					return nil, lerr(name)
				}
				var o []Val
				for _, x := range out {
					if in(x, it.items(l)) == want {
						o = append(o, x)
					}
				}
				out = o
			}
			return List(out...), nil
		})
	}
	keep("intersection", true)
	keep("complement", false)

	// mutation
	setter := func(name string, set func(p *Pair, v Val)) {
		form(name, "2", func(it *Interp, a A, env *Env) (Val, error) {
			c, err := it.Eval(a[0], env)
			if err != nil {
				return nil, err
			}
			v, err := it.Eval(a[1], env)
			if err != nil {
				return nil, err
			}
			p, ok := c.(*Pair)
			if !ok {
				return nil, lerr(name)
			}
			set(p, v)
			return v, nil
		})
	}
	setter("set-car!", func(p *Pair, v Val) { p.Car = v })
	setter("set-cdr!", func(p *Pair, v Val) { p.Cdr = v })
	form("set-nth!", "3", func(it *Interp, a A, env *Env) (Val, error) {
		l, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		if !IsList(l) {
			return nil, lerr("set-nth!")
		}
		i, err := it.Eval(a[1], env)
		if err != nil {
			return nil, err
		}
		v, err := it.Eval(a[2], env)
		if err != nil {
			return nil, err
		}
		n, ok := i.(int64)
		if !ok || n < 1 {
			it.Quirk = "index of set-nth!"
			return v, nil
		}
		c := l
		for ; n > 1 && c != nil; n-- {
			c = Cdr(c)
		}
		if p, ok := c.(*Pair); ok {
			p.Car = v
		} else if c != nil {
			it.Quirk = "improper list"
		}
		return v, nil
	})

	// association lists
	def("acons", "2|3", func(it *Interp, a A, env *Env) (Val, error) {
		if isPlainList(a[0]) {
			return nil, lerr("acons")
		}
		return acons(it, a[0], a[1], nthItem(a, 2)), nil
	})
	def("pairlis", "2|3", func(it *Interp, a A, env *Env) (Val, error) {
		if !isPlainList(a[0]) || !isPlainList(a[1]) || !isPlainList(nthItem(a, 2)) {
			return nil, lerr("pairlis")
		}
		k, v := it.items(a[0]), it.items(a[1])
		if len(k) != len(v) {
			return nil, lerr("pairlis")
		}
		r := nthItem(a, 2)
		for i := range k {
			if k[i] == nil {
				return nil, lerr("pairlis")
			}
			r = acons(it, k[i], v[i], r)
		}
		return r, nil
	})
	def("assq assv assoc", "2", func(it *Interp, a A, env *Env) (Val, error) {
		if !IsList(a[1]) {
			it.Quirk = "assoc of no list"
		}
		p, err := alistFind(it, a[0], a[1])
		if p == nil {
			return nil, err
		}
		return p, nil
	})
	def("rassoc", "2", func(it *Interp, a A, env *Env) (Val, error) {
		if !IsList(a[1]) {
			it.Quirk = "rassoc of no list"
		}
		for _, e := range it.items(a[1]) {
			if e == nil {
				if a[0] == nil {
					it.Quirk = "empty entry"
				}
				continue
			}
			p, ok := e.(*Pair)
			if !ok {
				return nil, lerr("rassoc")
			}
			if Equal(p.Cdr, a[0]) {
				return p, nil
			}
		}
		return nil, nil
	})
	def("dissoc", "2", func(it *Interp, a A, env *Env) (Val, error) {
		if !IsList(a[1]) {
			it.Quirk = "dissoc of no list"
		}
		var r Val
		for _, e := range it.items(a[1]) {
			p, ok := e.(*Pair)
			if e == nil {
				it.Quirk = "empty entry"
				continue
			}
			if !ok {
				return nil, lerr("dissoc")
			}
			if !Equal(p.Car, a[0]) {
				r = acons(it, p.Car, p.Cdr, r)
			}
		}
		return r, nil
	})
	var alist func(it *Interp, v Val) Val
	alist = func(it *Interp, v Val) Val {
		if v == nil {
			return nil
		}
		p, ok := v.(*Pair)
		if !ok || p.Alist || p.Cell {
			return v
		}
		e, ok := p.Car.(*Pair)
		if !ok {
			it.Quirk = "alist of something that is not a pair"
			return nil
		}
		return acons(it, e.Car, e.Cdr, alist(it, p.Cdr))
	}
	def("alist", "1", func(it *Interp, a A, env *Env) (Val, error) { return alist(it, a[0]), nil })

	// byte arrays
	def("list-to-bytearray list->bytearray", "1", func(it *Interp, a A, env *Env) (Val, error) {
		b, err := bytesOf(it, a[0])
		if err != nil {
			return nil, err
		}
		return &Bytes{b}, nil
	})
	def("bytearray-to-list bytearray->list", "1", func(it *Interp, a A, env *Env) (Val, error) {
		b, ok := a[0].(*Bytes)
		if !ok {
			return nil, lerr("bytes")
		}
		var l []Val
		for _, x := range b.B {
			l = append(l, int64(x))
		}
		return List(l...), nil
	})
	replace := func(cp bool) func(it *Interp, a A, env *Env) (Val, error) {
		return func(it *Interp, a A, env *Env) (Val, error) {
			b, ok := a[0].(*Bytes)
			i, ok2 := a[1].(int64)
			v, ok3 := a[2].(int64)
			if !ok || !ok2 || !ok3 || i < 0 || i >= int64(len(b.B)) || v < 0 || v > 255 {
				return nil, lerr("replace-byte")
			}
			if cp {
				b = Copy(b).(*Bytes)
			}
			b.B[i] = byte(v)
			return b, nil
		}
	}
	def("replace-byte", "3", replace(true))
	def("replace-byte!", "3", replace(false))
	def("extract-byte", "2", func(it *Interp, a A, env *Env) (Val, error) {
		b, ok := a[0].(*Bytes)
		i, ok2 := a[1].(int64)
		if !ok || !ok2 || i < 0 || i >= int64(len(b.B)) {
			return nil, lerr("extract-byte")
		}
		return int64(b.B[i]), nil
	})
	def("extract-bytes", "3", func(it *Interp, a A, env *Env) (Val, error) {
		b, ok := a[0].(*Bytes)
		i, ok2 := a[1].(int64)
		n, ok3 := a[2].(int64)
		if !ok || !ok2 || !ok3 || i < 0 || i >= int64(len(b.B)) || n < 0 || n > int64(len(b.B))-i {
			return nil, lerr("extract-bytes")
		}
		return &Bytes{append([]byte{}, b.B[i:i+n]...)}, nil
	})
	appendBytes := func(bang bool) func(it *Interp, a A, env *Env) (Val, error) {
		return func(it *Interp, a A, env *Env) (Val, error) {
			b, ok := Val(nil).(*Bytes)
			if len(a) > 0 {
				b, ok = a[0].(*Bytes)
			}
			if !ok {
				return nil, lerr("append-bytes")
			}
			var more []byte
			var err error
			if len(a) == 2 && IsList(a[1]) {
				more, err = bytesOf(it, a[1])
			} else {
				more, err = bytesOf(it, List(a[1:]...))
			}
			if err != nil {
				return nil, err
			}
			r := append(append([]byte{}, b.B...), more...)
			if bang {
				b.B = r
				return b, nil
			}
			return &Bytes{r}, nil
		}
	}
	def("append-bytes", "*", appendBytes(false))
	def("append-bytes!", "*", appendBytes(true))

	// numbers
	arith("+", func(a []int64) (int64, bool) {
		var r int64
		for _, x := range a {
			r += x
		}
		return r, true
	}, func(a []float32) (float32, bool) {
		var r float32
		for _, x := range a {
			r += x
		}
		return r, true
	})
	arith("*", func(a []int64) (int64, bool) {
		r := int64(1)
		for _, x := range a {
			r *= x
		}
		return r, true
	}, func(a []float32) (float32, bool) {
		r := float32(1)
		for _, x := range a {
			r *= x
		}
		return r, true
	})
	arith("-", func(a []int64) (int64, bool) {
		if len(a) == 0 {
			return 0, true
		}
		r := a[0]
		for _, x := range a[1:] {
			r -= x
		}
		return r, true
	}, func(a []float32) (float32, bool) {
		r := a[0]
		for _, x := range a[1:] {
			r -= x
		}
		return r, true
	})
	arith("/ quotient", func(a []int64) (int64, bool) {
		if len(a) == 0 {
			return 0, true
		}
		r := a[0]
		for _, x := range a[1:] {
			if x == 0 {
				return 0, false
			}
			r /= x
		}
		return r, true
	}, func(a []float32) (float32, bool) {
		r := a[0]
		for _, x := range a[1:] {
			if x == 0 {
				return 0, false
			}
			r /= x
		}
		return r, true
	})
	def("% modulo", "2", func(it *Interp, a A, env *Env) (Val, error) {
		x, ok := a[0].(int64)
		y, ok2 := a[1].(int64)
		if !ok || !ok2 || y == 0 {
			return nil, lerr("modulo")
		}
		return x % y, nil
	})
	int1 := func(names string, f func(x int64) Val) {
		def(names, "1", func(it *Interp, a A, env *Env) (Val, error) {
			x, ok := a[0].(int64)
			if !ok {
				return nil, lerr("integer")
			}
			return f(x), nil
		})
	}
	int1("succ", func(x int64) Val { return x + 1 })
	int1("pred", func(x int64) Val { return x - 1 })
	int1("even?", func(x int64) Val { return x%2 == 0 })
	int1("odd?", func(x int64) Val { return x%2 != 0 })
	int1("binary-not", func(x int64) Val { return x ^ 0xFFFFFFFF })
	int2 := func(name string, f func(x, y int64) int64) {
		def(name, "2", func(it *Interp, a A, env *Env) (Val, error) {
			x, ok := a[0].(int64)
			y, ok2 := a[1].(int64)
			if !ok || !ok2 {
				return nil, lerr("integer")
			}
			return f(x, y), nil
		})
	}
	int2("binary-and", func(x, y int64) int64 { return x & y })
	int2("binary-or", func(x, y int64) int64 { return x | y })
	int2("left-shift", func(x, y int64) int64 {
		if y < 0 || y > 63 {
			return 0
		}
		return int64(uint64(x) << uint(y))
	})
	int2("right-shift", func(x, y int64) int64 {
		if y < 0 || y > 63 {
			return 0
		}
		return int64(uint64(x) >> uint(y))
	})
	compare("<", func(a, b int64) bool { return a < b }, func(a, b float32) bool { return a < b })
	compare(">", func(a, b int64) bool { return a > b }, func(a, b float32) bool { return a > b })
	compare("<=", func(a, b int64) bool { return a <= b }, func(a, b float32) bool { return a <= b })
	compare(">=", func(a, b int64) bool { return a >= b }, func(a, b float32) bool { return a >= b })
	num1 := func(name string, fi func(x int64) Val, ff func(x float32) Val) {
		def(name, "1", func(it *Interp, a A, env *Env) (Val, error) {
			switch x := a[0].(type) {
			case int64:
				return fi(x), nil
			case float32:
				return ff(x), nil
			}
			return nil, lerr("number")
		})
	}
	num1("integer", func(x int64) Val { return x }, func(x float32) Val { return int64(x) })
	num1("float", func(x int64) Val { return float32(x) }, func(x float32) Val { return x })
	num1("abs", func(x int64) Val {
		if x < 0 {
			return -x
		}
		return x
	}, func(x float32) Val { return float32(math.Abs(float64(x))) })
	num1("zero?", func(x int64) Val { return x == 0 }, func(x float32) Val { return x == 0 })
	num1("positive?", func(x int64) Val { return x > 0 }, func(x float32) Val { return x > 0 })
	num1("negative?", func(x int64) Val { return x < 0 }, func(x float32) Val { return x < 0 })
	num1("sign", func(x int64) Val {
		switch {
		case x < 0:
			return int64(-1)
		case x > 0:
			return int64(1)
		}
		return int64(0)
	}, func(x float32) Val { return sgn(x) })
	num1("floor", func(x int64) Val { return float32(x) }, func(x float32) Val { return float32(math.Floor(float64(x))) })
	num1("ceiling", func(x int64) Val { return float32(x) }, func(x float32) Val { return float32(math.Ceil(float64(x))) })
	num1("inf?", func(x int64) Val { return false }, func(x float32) Val { return math.IsInf(float64(x), 0) })
	num1("nan?", func(x int64) Val { return false }, func(x float32) Val { return x != x })
	def("float->bits", "1", func(it *Interp, a A, env *Env) (Val, error) {
		f, ok := a[0].(float32)
		if !ok {
			return nil, lerr("float")
		}
		return int64(math.Float32bits(f)), nil
	})
	int1("bits->float", func(x int64) Val { return math.Float32frombits(uint32(x)) })
	minmax := func(name string, less bool) {
		def(name, "1", func(it *Interp, a A, env *Env) (Val, error) {
			if !IsList(a[0]) {
				return nil, lerr(name)
			}
			l := it.items(a[0])
			if len(l) == 0 {
				return int64(0), nil
			}
			fl := false
			for _, x := range l {
				if !isNum(x) {
					return nil, lerr(name)
				}
				if _, ok := x.(float32); ok {
					fl = true
				}
			}
			if fl {
				r := asFloat(l[0])
				for _, x := range l[1:] {
					f := asFloat(x)
					if less && f < r || !less && f > r {
						r = f
					}
				}
				return r, nil
			}
			r := l[0].(int64)
			for _, x := range l[1:] {
				n := x.(int64)
				if less && n < r || !less && n > r {
					r = n
				}
			}
			return r, nil
		})
	}
	minmax("min", true)
	minmax("max", false)
	def("pow", "2", func(it *Interp, a A, env *Env) (Val, error) {
		if !isNum(a[0]) || !isNum(a[1]) {
			return nil, lerr("pow")
		}
		b, ok := a[0].(int64)
		e, ok2 := a[1].(int64)
		if ok && ok2 {
			if e < 0 {
				it.Quirk = "negative exponent"
				return nil, nil
			}
			r := int64(1)
			for ; e > 0; e >>= 1 {
				if e&1 != 0 {
					r *= b
				}
				b *= b
			}
			return r, nil
		}
		return float32(math.Pow(float64(asFloat(a[0])), float64(asFloat(a[1])))), nil
	})
	def("interval", "1|2|3", func(it *Interp, a A, env *Env) (Val, error) {
		for i, x := range a {
			if _, ok := x.(int64); !ok {
				if i == 2 {
					return nil, lerr("interval")
				}
				it.Quirk = "interval of something that is no integer"
				return nil, nil
			}
		}
		s, e, st := int64(1), a[0].(int64), int64(1)
		if len(a) > 1 {
			s, e = a[0].(int64), a[1].(int64)
			if s > e {
				st = -1
			}
			if len(a) == 3 {
				x := a[2].(int64)
				if x == 0 || (x > 0) != (st > 0) {
					return nil, lerr("interval")
				}
				st = x
			}
		}
		var out []Val
		for i := s; st > 0 && i <= e || st < 0 && i >= e; {
			out = append(out, i)
			if len(out) > 200000 {
				return nil, ErrBudget
			}
			n := i + st
			if st > 0 && n < i || st < 0 && n > i {
				break
			}
			i = n
		}
		return List(out...), nil
	})
	def("number->string", "1|2", func(it *Interp, a A, env *Env) (Val, error) {
		base := int64(10)
		if len(a) == 2 {
			b, ok := a[1].(int64)
			if !ok {
				it.Quirk = "base"
			}
			base = b
		}
		n, ok := a[0].(int64)
		if !ok || base != 2 && base != 8 && base != 10 && base != 16 {
			it.Quirk = "number->string"
			return nil, nil
		}
		return S(strconv.FormatInt(n, int(base))), nil
	})
	def("string->number", "1|2", func(it *Interp, a A, env *Env) (Val, error) {
		s, ok := a[0].(*Str)
		base := int64(10)
		if len(a) == 2 {
			b, ok := a[1].(int64)
			if !ok {
				it.Quirk = "base"
			}
			base = b
		}
		if !ok || base != 2 && base != 8 && base != 10 && base != 16 {
			it.Quirk = "string->number"
			return nil, nil
		}
		n, err := strconv.ParseInt(s.S, int(base), 64)
		if err != nil || strings.ContainsAny(s.S, "_+") {
			it.Quirk = "string->number of no number"
			return nil, nil
		}
		return n, nil
	})

	// strings
	str2("string-split", func(a, b string) Val {
		var l []Val
		for _, p := range strings.Split(a, b) {
			l = append(l, S(p))
		}
		return List(l...)
	})
	def("string-join", "1|2", func(it *Interp, a A, env *Env) (Val, error) {
		sep := ""
		if s := nthItem(a, 1); s != nil {
			x, ok := s.(*Str)
			if !ok {
				return nil, lerr("string-join")
			}
			sep = x.S
		}
		if !IsList(a[0]) {
			return nil, lerr("string-join")
		}
		l, err := strArgs(it.items(a[0]))
		if err != nil {
			return nil, err
		}
		return S(strings.Join(l, sep)), nil
	})
	trim := func(name string, f func(s, set string) string) {
		def(name, "1|2", func(it *Interp, a A, env *Env) (Val, error) {
			s, err := strArgs(a)
			if err != nil {
				return nil, err
			}
			set := " \t\r\n\v\f"
			if len(s) == 2 {
				set = s[1]
			}
			return S(f(s[0], set)), nil
		})
	}
	trim("string-trim", strings.Trim)
	trim("string-trim-left", strings.TrimLeft)
	trim("string-trim-right", strings.TrimRight)
	str1("string-upcase", func(s string) Val { return S(strings.ToUpper(s)) })
	str1("string-downcase", func(s string) Val { return S(strings.ToLower(s)) })
	str1("string-capitalize", func(s string) Val { return S(capitalize(s)) })
	strSet("string-upcase!", strings.ToUpper)
	strSet("string-downcase!", strings.ToLower)
	strSet("string-capitalize!", capitalize)
	str1("string-length", func(s string) Val { return int64(len(s)) })
	str1("string-null?", func(s string) Val { return s == "" })
	def("substring", "3", func(it *Interp, a A, env *Env) (Val, error) {
		s, ok := a[0].(*Str)
		i, ok2 := a[1].(int64)
		j, ok3 := a[2].(int64)
		if !ok || !ok2 || !ok3 || i < 0 || i > j || j > int64(len(s.S)) {
			return nil, lerr("substring")
		}
		return S(s.S[i:j]), nil
	})
	str2("substring?", func(a, b string) Val { return strings.Contains(b, a) })
	str2("string-prefix?", func(a, b string) Val { return strings.HasPrefix(b, a) })
	str2("string-suffix?", func(a, b string) Val { return strings.HasSuffix(b, a) })
	for n, f := range map[string]func(c int) bool{
		"=?": func(c int) bool { return c == 0 }, "<?": func(c int) bool { return c < 0 }, ">?": func(c int) bool { return c > 0 },
		"<=?": func(c int) bool { return c <= 0 }, ">=?": func(c int) bool { return c >= 0 }} {
		f := f
		str2("string"+n, func(a, b string) Val { return f(strings.Compare(a, b)) })
		str2("string-ci"+n, func(a, b string) Val { return f(strings.Compare(strings.ToLower(a), strings.ToLower(b))) })
	}
	def("parse", "1", func(it *Interp, a A, env *Env) (Val, error) {
		s, ok := a[0].(*Str)
		if !ok {
			return nil, lerr("parse")
		}
		v, err := Read(s.S)
		if err == ErrEOF {
			it.Quirk = "nothing to read"
			return nil, nil
		}
		return v, err
	})
	def("str", "*", func(it *Interp, a A, env *Env) (Val, error) {
		if len(a) == 0 {
			return S("()"), nil
		}
		r := ""
		for _, x := range a {
			if !printable(x) {
				it.Quirk = "printed form of a function"
			}
			r += PrintString(x)
		}
		return S(r), nil
	})
	def("intern", "1", func(it *Interp, a A, env *Env) (Val, error) {
		s, ok := a[0].(*Str)
		if !ok {
			return nil, lerr("intern")
		}
		return Sym(s.S), nil
	})
	gens := map[*Interp]int{}
	_ = gens
	def("quit", "0", func(it *Interp, a A, env *Env) (Val, error) { return nil, nil })
	form("time", "1", func(it *Interp, a A, env *Env) (Val, error) {
		it.Quirk = "time"
		return it.Eval(a[0], env)
	})

	// frames
	def("make-frame", "*", func(it *Interp, a A, env *Env) (Val, error) {
		if len(a)%2 != 0 {
			return nil, lerr("make-frame")
		}
		f := &Frame{map[string]Val{}}
		for i := 0; i < len(a); i += 2 {
			if !IsNaked(a[i]) {
				return nil, lerr("make-frame")
			}
			f.M[string(a[i].(Sym))] = a[i+1]
		}
		return f, nil
	})
	slot := func(name, arity string, fn func(it *Interp, f *Frame, k string, a A, env *Env) (Val, error)) {
		def(name, arity, func(it *Interp, a A, env *Env) (Val, error) {
			f, ok := a[0].(*Frame)
			if !ok || !IsNaked(a[1]) {
				return nil, lerr(name)
			}
			return fn(it, f, string(a[1].(Sym)), a, env)
		})
	}
	slot("has-slot?", "2", func(it *Interp, f *Frame, k string, a A, env *Env) (Val, error) {
		_, ok := f.Lookup(k)
		return ok, nil
	})
	slot("get-slot", "2", func(it *Interp, f *Frame, k string, a A, env *Env) (Val, error) {
		v, ok := f.Lookup(k)
		if !ok {
			return nil, lerr("get-slot")
		}
		return v, nil
	})
	slot("get-slot-or-nil", "2", func(it *Interp, f *Frame, k string, a A, env *Env) (Val, error) {
		v, _ := f.Lookup(k)
		return v, nil
	})
	slot("set-slot!", "3", func(it *Interp, f *Frame, k string, a A, env *Env) (Val, error) {
		f.M[k] = a[2]
		return a[2], nil
	})
	def("remove-slot!", "2", func(it *Interp, a A, env *Env) (Val, error) {
		if a[0] == nil {
			return false, nil
		}
		f, ok := a[0].(*Frame)
		if !ok || !IsNaked(a[1]) {
			return nil, lerr("remove-slot!")
		}
		k := string(a[1].(Sym))
		_, ok = f.M[k]
		delete(f.M, k)
		return ok, nil
	})
	slot("send", ">=2", func(it *Interp, f *Frame, k string, a A, env *Env) (Val, error) {
		v, _ := f.Lookup(k)
		c, ok := v.(*Closure)
		if !ok {
			return nil, lerr("send")
		}
		return it.Call(c, a[2:], f)
	})
	evalAll := func(it *Interp, a A, env *Env) (A, error) {
		var r A
		for _, x := range a {
			v, err := it.Eval(x, env)
			if err != nil {
				return nil, err
			}
			r = append(r, v)
		}
		return r, nil
	}
	spread := func(a A) (A, error) {
		if len(a) == 0 || !IsList(a[len(a)-1]) {
			return nil, lerr("apply")
		}
		return append(append(A{}, a[:len(a)-1]...), Items(a[len(a)-1])...), nil
	}
	form("apply-slot", ">=3", func(it *Interp, a A, env *Env) (Val, error) {
		fv, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		f, ok := fv.(*Frame)
		if !ok {
			return nil, lerr("apply-slot")
		}
		k, err := it.Eval(a[1], env)
		if err != nil {
			return nil, err
		}
		if !IsNaked(k) {
			return nil, lerr("apply-slot")
		}
		v, _ := f.Lookup(string(k.(Sym)))
		c, ok := v.(*Closure)
		if !ok {
			return nil, lerr("apply-slot")
		}
		args, err := evalAll(it, a[2:], env)
		if err != nil {
			return nil, err
		}
		args, err = spread(args)
		if err != nil {
			return nil, err
		}
		return it.Call(c, args, f)
	})
	superOf := func(it *Interp, k Val, env *Env) (*Closure, error) {
		if env.Frame == nil || !IsNaked(k) {
			return nil, lerr("send-super")
		}
		for _, p := range env.Frame.Parents() {
			if p == env.Frame {
				continue
			}
			if v, ok := p.lookup(string(k.(Sym)), map[*Frame]bool{env.Frame: true}); ok {
				if c, ok := v.(*Closure); ok {
					return c, nil
				}
				return nil, lerr("send-super")
			}
		}
		return nil, lerr("send-super")
	}
	def("send-super", ">=1", func(it *Interp, a A, env *Env) (Val, error) {
		c, err := superOf(it, a[0], env)
		if err != nil {
			return nil, err
		}
		return it.Call(c, a[1:], env.Frame)
	})
	form("apply-slot-super", ">=2", func(it *Interp, a A, env *Env) (Val, error) {
		if env.Frame == nil {
			return nil, lerr("apply-slot-super")
		}
		k, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		c, err := superOf(it, k, env)
		if err != nil {
			return nil, err
		}
		args, err := evalAll(it, a[1:], env)
		if err != nil {
			return nil, err
		}
		args, err = spread(args)
		if err != nil {
			return nil, err
		}
		return it.Call(c, args, env.Frame)
	})
	def("clone", "1", func(it *Interp, a A, env *Env) (Val, error) {
		f, ok := a[0].(*Frame)
		if !ok {
			return nil, lerr("clone")
		}
		m := map[string]Val{}
		for k, v := range f.M {
			m[k] = v
		}
		return &Frame{m}, nil
	})
	def("frame-keys", "1", func(it *Interp, a A, env *Env) (Val, error) {
		f, ok := a[0].(*Frame)
		if !ok {
			return nil, lerr("frame-keys")
		}
		var l []Val
		for _, k := range sortedKeys(f.M) {
			l = append(l, Sym(k))
		}
		if len(l) > 1 {
			it.orderQuirk("order of keys")
		}
		return List(l...), nil
	})
	def("frame-values", "1", func(it *Interp, a A, env *Env) (Val, error) {
		f, ok := a[0].(*Frame)
		if !ok {
			return nil, lerr("frame-values")
		}
		var l []Val
		for _, k := range sortedKeys(f.M) {
			l = append(l, f.M[k])
		}
		if len(l) > 1 {
			it.orderQuirk("order of values")
		}
		return List(l...), nil
	})
}

func printable(v Val) bool {
	switch x := v.(type) {
	case *Closure, *Macro, *Prim, *Env, *Host:
		return false
	case *Pair:
		for {
			if !printable(x.Car) {
				return false
			}
			n, ok := x.Cdr.(*Pair)
			if !ok {
				return printable(x.Cdr)
			}
			x = n
		}
	case *Frame:
		if len(x.M) > 1 {
			return false // order
		}
		for _, e := range x.M {
			if !printable(e) {
				return false
			}
		}
	}
	return true
}

var _ = fmt.Sprint

// KeyOrder tells that the program at hand does not depend on the order of
// frame-keys and frame-values.
var KeyOrder bool

func (it *Interp) orderQuirk(q string) {
	if !KeyOrder {
		it.Quirk = q
	}
}
