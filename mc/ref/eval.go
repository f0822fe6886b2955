package ref

import (
	"errors"
	"strconv"
	"strings"
)

// Interp runs programs of the reference language.
type Interp struct {
	Global *Env
	Tick   int64
	Log    []string
	Steps  int
	Budget int
	// Quirk: the program did something whose result the properties leave open,
	// so nothing can be concluded from comparing it.
	Quirk string
	// Named are the top-level environments the program made.
	Named map[string]*Env
	// Depth of nested evaluation.
	Depth int
	// Prof is told about the start ("+") and end ("-") of every call.
	Prof func(mark, kind, name string)
}

func (it *Interp) callPrim(fn *Prim, args []Val, env *Env) (Val, error) {
	if it.Prof == nil {
		return fn.Fn(it, args, env)
	}
	k := "prim"
	if fn.Special {
		k = "form"
	}
	it.Prof("+", k, fn.Name)
	v, err := fn.Fn(it, args, env)
	it.Prof("-", k, fn.Name)
	return v, err
}

type Binding struct {
	Val       Val
	Protected bool
	// Unassigned: bound without a value.
	Unassigned bool
}

type Env struct {
	M          map[string]*Binding
	Parent     *Env
	Frame      *Frame
	Restricted bool
	Name       string
}

type Prim struct {
	Name       string
	Arity      string
	Special    bool
	Restricted bool
	Fn         func(it *Interp, a []Val, env *Env) (Val, error)
}

var ErrBudget = errors.New("budget")

type LispError struct{ Msg string }

func (e *LispError) Error() string { return e.Msg }

func lerr(s string) error { return &LispError{s} }

func NewInterp(budget int) *Interp {
	if sharedGlobal == nil {
		sharedGlobal = NewGlobal()
	}
	return &Interp{Budget: budget, Global: sharedGlobal}
}

// sharedGlobal: its bindings are protected, so programs cannot change it.
var sharedGlobal *Env

func NewGlobal() *Env {
	e := &Env{M: map[string]*Binding{}, Name: "global"}
	for n, p := range prims {
		e.M[n] = &Binding{Val: p, Protected: true}
	}
	return e
}

// prims is the table of primitives by name.
var prims = map[string]*Prim{}

func def(names, arity string, fn func(it *Interp, a []Val, env *Env) (Val, error)) {
	for _, n := range strings.Fields(names) {
		prims[n] = &Prim{Name: n, Arity: arity, Fn: fn}
	}
}

func form(name, arity string, fn func(it *Interp, a []Val, env *Env) (Val, error)) {
	prims[name] = &Prim{Name: name, Arity: arity, Special: true, Fn: fn}
}

// Prims gives the names of the primitives the reference knows.
func Prims() map[string]*Prim { return prims }

func NewEnv(p *Env, frame *Frame, name string) *Env {
	e := &Env{M: map[string]*Binding{}, Parent: p, Frame: frame, Name: name}
	if p != nil {
		e.Restricted = p.Restricted
		if frame == nil {
			e.Frame = p.Frame
		}
	}
	return e
}

func (e *Env) find(n string) *Binding {
	for x := e; x != nil; x = x.Parent {
		if b, ok := x.M[n]; ok {
			return b
		}
	}
	return nil
}

func (e *Env) BindLocal(n string, v Val) error {
	if b, ok := e.M[n]; ok {
		if b.Protected {
			return lerr("protected")
		}
		b.Val, b.Unassigned = v, false
		return nil
	}
	e.M[n] = &Binding{Val: v}
	return nil
}

func (e *Env) Set(n string, v Val) error {
	if b, ok := e.M[n]; ok {
		if b.Protected {
			return lerr("protected")
		}
		b.Val, b.Unassigned = v, false
		return nil
	}
	if e.Frame != nil {
		if _, ok := e.Frame.Lookup(n + ":"); ok {
			e.Frame.M[n+":"] = v
			return nil
		}
	}
	b := e.find(n)
	if b == nil {
		return lerr("undefined " + n)
	}
	if b.Protected {
		return lerr("protected")
	}
	b.Val, b.Unassigned = v, false
	return nil
}

// Lookup finds a slot in a frame or, depth first, its parents.
func (f *Frame) Lookup(k string) (Val, bool) { return f.lookup(k, map[*Frame]bool{}) }

func (f *Frame) lookup(k string, seen map[*Frame]bool) (Val, bool) {
	if v, ok := f.M[k]; ok {
		return v, true
	}
	seen[f] = true
	for _, p := range f.Parents() {
		if !seen[p] {
			if v, ok := p.lookup(k, seen); ok {
				return v, true
			}
		}
	}
	return nil, false
}

// Parents are the frames in the slots whose names end in *:.
func (f *Frame) Parents() []*Frame {
	var ps []*Frame
	for _, k := range sortedKeys(f.M) {
		if strings.HasSuffix(k, "*:") {
			if p, ok := f.M[k].(*Frame); ok && p != nil {
				ps = append(ps, p)
			}
		}
	}
	return ps
}

// lookupVar: value of a variable; slot tells that it came from a slot of the
// frame of the environment, local from the innermost scope.
func (it *Interp) lookupVar(e *Env, n string, needFn bool) (v Val, slot, local bool) {
	if b, ok := e.M[n]; ok {
		return b.Val, false, true
	}
	if e.Frame != nil {
		if v, ok := e.Frame.Lookup(n + ":"); ok {
			// a let inside a method whose parameter or variable has the name of
			// a slot: which one is meant is left open
			for x := e.Parent; x != nil && x.Frame == e.Frame; x = x.Parent {
				if _, ok := x.M[n]; ok {
					it.Quirk = "slot and variable of the same name"
				}
			}
			if _, fn := v.(*Closure); fn || !needFn {
				return v, true, false
			}
		}
	}
	if b := e.find(n); b != nil {
		return b.Val, false, false
	}
	return nil, false, false
}

func (it *Interp) step() error {
	it.Steps++
	if it.Steps > it.Budget {
		return ErrBudget
	}
	return nil
}

func shortcut(p *Pair) *Pair {
	s, ok := p.Car.(Sym)
	if !ok {
		return p
	}
	n := string(s)
	at := func(i int) Val {
		v := Val(p)
		for ; i > 0; i-- {
			v = Cdr(v)
		}
		return Car(v)
	}
	rest := func(i int) Val {
		v := Val(p)
		for ; i > 0; i-- {
			v = Cdr(v)
		}
		return v
	}
	mk := func(tail Val, v ...Val) *Pair { return ListTail(v, tail).(*Pair) }
	switch {
	case strings.HasPrefix(n, "<-"):
		return mk(rest(1), Sym("channel-read"), Sym(n[2:]))
	case strings.HasSuffix(n, "<-"):
		return mk(rest(1), Sym("channel-write"), Sym(n[:len(n)-2]))
	case strings.HasSuffix(n, ":"):
		return mk(rest(2), Sym("get-slot"), at(1), s)
	case strings.HasSuffix(n, ":!"):
		return mk(rest(3), Sym("set-slot!"), at(1), Sym(n[:len(n)-1]), at(2))
	case strings.HasSuffix(n, ":?"):
		return mk(rest(2), Sym("has-slot?"), at(1), Sym(n[:len(n)-1]))
	case strings.HasSuffix(n, ":>"):
		return mk(rest(2), Sym("send"), at(1), Sym(n[:len(n)-1]))
	case strings.HasSuffix(n, ":^"):
		return mk(rest(1), Sym("send-super"), Sym(n[:len(n)-1]))
	}
	return p
}

// Eval evaluates an expression.
func (it *Interp) Eval(x Val, env *Env) (Val, error) {
	if err := it.step(); err != nil {
		return nil, err
	}
	it.Depth++
	defer func() { it.Depth-- }()
	if it.Depth > 3000 {
		return nil, ErrBudget
	}
	switch v := x.(type) {
	case Sym:
		if IsNaked(v) {
			return v, nil
		}
		r, _, _ := it.lookupVar(env, string(v), false)
		return r, nil
	case *Pair:
		if v.Alist || v.Cell {
			return v, nil
		}
		v = shortcut(v)
		var f Val
		slot, local := false, false
		if s, ok := v.Car.(Sym); ok && !IsNaked(s) {
			f, slot, local = it.lookupVar(env, string(s), true)
		} else {
			var err error
			f, err = it.Eval(v.Car, env)
			if err != nil {
				return nil, err
			}
		}
		switch fn := f.(type) {
		case *Closure:
			var frame *Frame
			if slot {
				frame = env.Frame
			} else if local && env.Frame != nil {
				it.Quirk = "function in a local variable called inside a method"
			}
			args, err := it.properArgs(v.Cdr)
			if err != nil {
				return nil, err
			}
			return it.callEval(fn, args, env, frame)
		case *Macro:
			args, err := it.properArgs(v.Cdr)
			if err != nil {
				return nil, err
			}
			e, err := it.expand(fn, args)
			if err != nil {
				return nil, err
			}
			return it.Eval(e, env)
		case *Prim:
			args, err := it.properArgs(v.Cdr)
			if err != nil {
				return nil, err
			}
			if fn.Restricted && env.Restricted {
				return nil, lerr("restricted")
			}
			if !ArityOK(fn.Arity, len(args)) {
				return nil, lerr("arity")
			}
			if !fn.Special {
				vals := make([]Val, len(args))
				for i, a := range args {
					vals[i], err = it.Eval(a, env)
					if err != nil {
						return nil, err
					}
				}
				args = vals
			}
			return it.callPrim(fn, args, env)
		}
		return nil, lerr("not a function")
	}
	return x, nil
}

func (it *Interp) properArgs(v Val) ([]Val, error) {
	var r []Val
	for v != nil {
		p, ok := v.(*Pair)
		if !ok {
			it.Quirk = "dotted arguments in code"
			return nil, lerr("dotted arguments")
		}
		r = append(r, p.Car)
		v = p.Cdr
	}
	return r, nil
}

// ArityOK says whether n arguments match a specification like 1|3, >=2 or *.
func ArityOK(spec string, n int) bool {
	for _, t := range strings.Split(spec, "|") {
		if t == "*" {
			return true
		}
		if strings.HasPrefix(t, ">=") {
			k, _ := strconv.Atoi(t[2:])
			if n >= k {
				return true
			}
		} else if k, _ := strconv.Atoi(t); k == n {
			return true
		}
	}
	return false
}

func paramsOf(p Val) (req []string, rest string, hasRest bool) {
	for {
		switch x := p.(type) {
		case *Pair:
			s, _ := x.Car.(Sym)
			req = append(req, string(s))
			p = x.Cdr
		case Sym:
			return req, string(x), true
		default:
			return req, "", false
		}
	}
}

func arityCheck(params Val, n int) error {
	req, _, rest := paramsOf(params)
	if n < len(req) || n > len(req) && !rest {
		return lerr("wrong number of arguments")
	}
	return nil
}

func bindParams(params Val, args []Val, e *Env) error {
	req, rest, has := paramsOf(params)
	for i, n := range req {
		if err := e.BindLocal(n, args[i]); err != nil {
			return err
		}
	}
	if has {
		return e.BindLocal(rest, List(args[len(req):]...))
	}
	return nil
}

func (it *Interp) callEval(f *Closure, args []Val, env *Env, frame *Frame) (Val, error) {
	if err := arityCheck(f.Params, len(args)); err != nil {
		return nil, err
	}
	vals := make([]Val, len(args))
	for i, a := range args {
		v, err := it.Eval(a, env)
		if err != nil {
			return nil, err
		}
		vals[i] = v
	}
	return it.Call(f, vals, frame)
}

// Call runs a function on values, as a method of frame if that is not nil.
func (it *Interp) Call(f *Closure, vals []Val, frame *Frame) (Val, error) {
	if err := arityCheck(f.Params, len(vals)); err != nil {
		return nil, err
	}
	e := NewEnv(f.Env, frame, f.Name)
	if frame != nil {
		e.M["self"] = &Binding{Val: frame}
	}
	if err := bindParams(f.Params, vals, e); err != nil {
		return nil, err
	}
	if it.Prof == nil {
		return it.body(f.Body, e)
	}
	n := f.Name
	if n == "" {
		n = "unnamed"
	}
	it.Prof("+", "func", n)
	v, err := it.body(f.Body, e)
	it.Prof("-", "func", n)
	return v, err
}

func (it *Interp) body(b Val, e *Env) (r Val, err error) {
	for {
		p, ok := b.(*Pair)
		if !ok {
			return r, nil
		}
		r, err = it.Eval(p.Car, e)
		if err != nil {
			return nil, err
		}
		b = p.Cdr
	}
}

func (it *Interp) seq(l []Val, e *Env) (r Val, err error) {
	for _, x := range l {
		r, err = it.Eval(x, e)
		if err != nil {
			return nil, err
		}
	}
	return r, nil
}

func (it *Interp) expand(m *Macro, args []Val) (Val, error) {
	if err := arityCheck(m.Params, len(args)); err != nil {
		return nil, err
	}
	e := NewEnv(m.Env, nil, m.Name)
	if err := bindParams(m.Params, args, e); err != nil {
		return nil, err
	}
	return it.Eval(m.Body, e)
}

// Apply applies a function or primitive to values.
func (it *Interp) Apply(f Val, vals []Val, env *Env) (Val, error) {
	if err := it.step(); err != nil {
		return nil, err
	}
	switch fn := f.(type) {
	case *Closure:
		if env != nil && env.Frame != nil {
			it.Quirk = "function applied inside a method"
		}
		return it.Call(fn, vals, nil)
	case *Prim:
		if fn.Restricted && env.Restricted {
			return nil, lerr("restricted")
		}
		if !ArityOK(fn.Arity, len(vals)) {
			return nil, lerr("arity")
		}
		return it.callPrim(fn, vals, env)
	}
	return nil, lerr("not a function")
}

func isFn(v Val) bool {
	switch v.(type) {
	case *Closure, *Prim:
		return true
	}
	return false
}

func selfEval(v Val) bool {
	switch x := v.(type) {
	case Sym:
		return IsNaked(x)
	case *Pair:
		return x.Alist || x.Cell
	}
	return true
}

func isPlainList(v Val) bool { // () or an ordinary cell
	if v == nil {
		return true
	}
	p, ok := v.(*Pair)
	return ok && !p.Alist && !p.Cell
}

func bindings(v Val) ([]Sym, []*Pair, error) {
	var ns []Sym
	var ps []*Pair
	for _, b := range Items(v) {
		p, ok := b.(*Pair)
		if !ok {
			return nil, nil, lerr("binding")
		}
		n, ok := p.Car.(Sym)
		if !ok {
			return nil, nil, lerr("binding name")
		}
		ns = append(ns, n)
		ps = append(ps, p)
	}
	return ns, ps, nil
}

func nthItem(l []Val, i int) Val {
	if i < len(l) {
		return l[i]
	}
	return nil
}

func init() {
	form("quote", "1", func(it *Interp, a []Val, env *Env) (Val, error) { return a[0], nil })
	form("if", "2|3", func(it *Interp, a []Val, env *Env) (Val, error) {
		c, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		if Truth(c) {
			return it.Eval(a[1], env)
		}
		return it.Eval(nthItem(a, 2), env)
	})
	form("when", ">=2", func(it *Interp, a []Val, env *Env) (Val, error) {
		c, err := it.Eval(a[0], env)
		if err != nil || !Truth(c) {
			return nil, err
		}
		return it.seq(a[1:], env)
	})
	form("unless", ">=2", func(it *Interp, a []Val, env *Env) (Val, error) {
		c, err := it.Eval(a[0], env)
		if err != nil || Truth(c) {
			return nil, err
		}
		return it.seq(a[1:], env)
	})
	form("cond", "*", func(it *Interp, a []Val, env *Env) (Val, error) {
		for _, c := range a {
			if !isPlainList(c) {
				return nil, lerr("cond clause")
			}
			if Car(c) == Sym("else") {
				return it.body(Cdr(c), env)
			}
			v, err := it.Eval(Car(c), env)
			if err != nil {
				return nil, err
			}
			if Truth(v) {
				return it.body(Cdr(c), env)
			}
		}
		return nil, nil
	})
	form("case", ">=1", func(it *Interp, a []Val, env *Env) (Val, error) {
		k, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		for _, c := range a[1:] {
			if !isPlainList(c) {
				return nil, lerr("case clause")
			}
			if Car(c) == Sym("else") {
				return it.body(Cdr(c), env)
			}
			if !IsList(Car(c)) {
				return nil, lerr("case keys")
			}
			for _, x := range Items(Car(c)) {
				if Equal(x, k) {
					return it.body(Cdr(c), env)
				}
			}
		}
		return nil, nil
	})
	form("and", "*", func(it *Interp, a []Val, env *Env) (r Val, err error) {
		for _, x := range a {
			r, err = it.Eval(x, env)
			if err != nil || !Truth(r) {
				return r, err
			}
		}
		return r, nil
	})
	form("or", "*", func(it *Interp, a []Val, env *Env) (r Val, err error) {
		for _, x := range a {
			r, err = it.Eval(x, env)
			if err != nil || Truth(r) {
				return r, err
			}
		}
		return r, nil
	})
	form("begin", "*", func(it *Interp, a []Val, env *Env) (Val, error) { return it.seq(a, env) })
	form("lambda", ">=1", func(it *Interp, a []Val, env *Env) (Val, error) {
		if !isPlainList(a[0]) {
			return nil, lerr("lambda list")
		}
		return &Closure{"unnamed", a[0], List(a[1:]...), env}, nil
	})
	form("named-lambda", ">=1", func(it *Interp, a []Val, env *Env) (Val, error) {
		n, ok := Car(a[0]).(Sym)
		if !isPlainList(a[0]) || !ok {
			return nil, lerr("named lambda")
		}
		return &Closure{string(n), Cdr(a[0]), List(a[1:]...), env}, nil
	})
	form("define", ">=1", func(it *Interp, a []Val, env *Env) (Val, error) {
		switch x := a[0].(type) {
		case Sym:
			v, err := it.Eval(nthItem(a, 1), env)
			if err != nil {
				return nil, err
			}
			return v, env.BindLocal(string(x), v)
		case *Pair:
			n, ok := x.Car.(Sym)
			if !ok {
				return nil, lerr("function name")
			}
			old, _, _ := it.lookupVar(env, string(n), false)
			if _, ok := old.(*Prim); ok {
				return nil, lerr("primitive")
			}
			f := &Closure{string(n), x.Cdr, List(a[1:]...), env}
			return f, env.BindLocal(string(n), f)
		}
		return nil, lerr("definition")
	})
	form("defmacro", ">=1", func(it *Interp, a []Val, env *Env) (Val, error) {
		n, ok := Car(a[0]).(Sym)
		if !ok {
			return nil, lerr("macro definition")
		}
		m := &Macro{string(n), Cdr(a[0]), nthItem(a, 1), env}
		return m, env.BindLocal(string(n), m)
	})
	let := func(kind int) func(it *Interp, a []Val, env *Env) (Val, error) {
		return func(it *Interp, a []Val, env *Env) (Val, error) {
			if n, ok := a[0].(Sym); ok && kind == 0 {
				if len(a) < 2 || !isPlainList(a[1]) {
					if len(a) >= 2 || false {
						return nil, lerr("named let")
					}
				}
				var ns []Val
				var init []Val
				for _, b := range Items(nthItem(a, 1)) {
					if _, ok := Car(b).(Sym); !ok {
						return nil, lerr("named let binding")
					}
					ns = append(ns, Car(b))
					init = append(init, Car(Cdr(b)))
				}
				e := NewEnv(env, nil, string(n))
				var body []Val
				if len(a) > 2 {
					body = a[2:]
				}
				f := &Closure{string(n), List(ns...), List(body...), e}
				e.M[string(n)] = &Binding{Val: f}
				return it.callEval(f, init, env, nil)
			}
			if !isPlainList(a[0]) {
				return nil, lerr("let bindings")
			}
			ns, ps, err := bindings(a[0])
			if err != nil {
				return nil, err
			}
			e := NewEnv(env, nil, "let")
			ev := env
			if kind > 0 {
				ev = e
			}
			if kind == 2 {
				for _, n := range ns {
					e.BindLocal(string(n), nil)
				}
			}
			for i, n := range ns {
				v, err := it.Eval(Car(Cdr(ps[i])), ev)
				if err != nil {
					return nil, err
				}
				e.BindLocal(string(n), v)
			}
			return it.seq(a[1:], e)
		}
	}
	form("let", ">=1", let(0))
	form("let*", ">=1", let(1))
	form("letrec", ">=1", let(2))
	form("do", ">=2", func(it *Interp, a []Val, env *Env) (r Val, err error) {
		if !isPlainList(a[0]) || !isPlainList(a[1]) {
			return nil, lerr("do")
		}
		ns, ps, err := bindings(a[0])
		if err != nil {
			return nil, err
		}
		e := NewEnv(env, nil, "do")
		for i, n := range ns {
			v, err := it.Eval(Car(Cdr(ps[i])), env)
			if err != nil {
				return nil, err
			}
			e.BindLocal(string(n), v)
		}
		for {
			if err := it.step(); err != nil {
				return nil, err
			}
			t, err := it.Eval(Car(a[1]), e)
			if err != nil {
				return nil, err
			}
			if Truth(t) {
				if Cdr(a[1]) != nil {
					return it.body(Cdr(a[1]), e)
				}
				return r, nil
			}
			for _, x := range a[2:] {
				r, err = it.Eval(x, e)
				if err != nil {
					return nil, err
				}
			}
			vals := make([]Val, len(ns))
			for i, n := range ns {
				if s := Car(Cdr(Cdr(ps[i]))); s != nil {
					vals[i], err = it.Eval(s, e)
					if err != nil {
						return nil, err
					}
				} else {
					vals[i], _, _ = it.lookupVar(e, string(n), false)
				}
			}
			for i, n := range ns {
				e.BindLocal(string(n), vals[i])
			}
		}
	})
	def("apply", ">=1", func(it *Interp, a []Val, env *Env) (Val, error) {
		if !isFn(a[0]) {
			return nil, lerr("apply")
		}
		if len(a) == 1 || !IsList(a[len(a)-1]) {
			return nil, lerr("apply list")
		}
		args := append([]Val{}, a[1:len(a)-1]...)
		args = append(args, Items(a[len(a)-1])...)
		return it.Apply(a[0], args, env)
	})
	chain := func(tap bool) func(it *Interp, a []Val, env *Env) (Val, error) {
		return func(it *Interp, a []Val, env *Env) (Val, error) {
			v, err := it.Eval(a[0], env)
			if err != nil {
				return nil, err
			}
			first := v
			for _, x := range a[1:] {
				if !selfEval(v) {
					it.Quirk = "chained value is code"
				}
				if IsList(x) {
					x = Cons(Car(x), Cons(v, Cdr(x)))
				} else {
					x = List(x, v)
				}
				r, err := it.Eval(x, env)
				if err != nil {
					return nil, err
				}
				if !tap {
					v = r
				}
			}
			if tap {
				return first, nil
			}
			return v, nil
		}
	}
	form("->", ">=1", chain(false))
	form("=>", ">=1", chain(true))
	form("set!", "2", func(it *Interp, a []Val, env *Env) (Val, error) {
		v, err := it.Eval(a[1], env)
		if err != nil {
			return nil, err
		}
		n, ok := a[0].(Sym)
		if !ok {
			return nil, lerr("set!")
		}
		return v, env.Set(string(n), v)
	})
	form("quasiquote", "1", func(it *Interp, a []Val, env *Env) (Val, error) {
		return it.qq(a[0], 1, env)
	})
	form("unquote", "1", func(it *Interp, a []Val, env *Env) (Val, error) { return nil, lerr("unquote") })
	form("unquote-splicing", "1", func(it *Interp, a []Val, env *Env) (Val, error) { return nil, lerr("unquote-splicing") })
	form("expand", ">=1", func(it *Interp, a []Val, env *Env) (Val, error) {
		m, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		mac, ok := m.(*Macro)
		if !ok {
			return nil, lerr("expand")
		}
		return it.expand(mac, a[1:])
	})
	form("on-error", "2|3", func(it *Interp, a []Val, env *Env) (Val, error) {
		v, e := it.Eval(a[0], env)
		if e == ErrBudget {
			return nil, e
		}
		if e == nil {
			if len(a) == 3 {
				f, err := it.Eval(a[2], env)
				if err != nil {
					return nil, err
				}
				c, ok := f.(*Closure)
				if !ok {
					return nil, lerr("on-error")
				}
				return it.Call(c, nil, nil)
			}
			return v, nil
		}
		f, err := it.Eval(a[1], env)
		if err != nil {
			return nil, err
		}
		c, ok := f.(*Closure)
		if !ok {
			return nil, lerr("on-error")
		}
		return it.Call(c, []Val{S(e.Error())}, nil)
	})
	def("error", "1", func(it *Interp, a []Val, env *Env) (Val, error) { return nil, lerr(Print(a[0])) })
	def("eval", "1|2", func(it *Interp, a []Val, env *Env) (Val, error) {
		if len(a) == 2 {
			e, ok := a[1].(*Env)
			if !ok {
				return nil, lerr("eval")
			}
			env = e
		}
		return it.Eval(a[0], env)
	})
	def("global-eval", "1", func(it *Interp, a []Val, env *Env) (Val, error) { return it.Eval(a[0], it.Global) })
	prims["global-eval"].Restricted = true
	form("definition-of", "1", func(it *Interp, a []Val, env *Env) (Val, error) {
		v, err := it.Eval(a[0], env)
		if err != nil {
			return nil, err
		}
		f, ok := v.(*Closure)
		if !ok {
			return nil, lerr("definition-of")
		}
		if f.Name == "unnamed" {
			n, ok := a[0].(Sym)
			if !ok {
				n = "anonymous"
			}
			return List(Sym("define"), n, ListTail([]Val{Sym("lambda"), f.Params}, f.Body)), nil
		}
		return ListTail([]Val{Sym("define"), Cons(Sym(f.Name), f.Params)}, f.Body), nil
	})
	// observation
	def("mc-tick", "0", func(it *Interp, a []Val, env *Env) (Val, error) { it.Tick++; return it.Tick, nil })
	def("mc-log", "1", func(it *Interp, a []Val, env *Env) (Val, error) {
		it.Log = append(it.Log, Canon(a[0]))
		return a[0], nil
	})
	def("mc-host", "0", func(it *Interp, a []Val, env *Env) (Val, error) { return &Host{}, nil })
	def("mc-id", "1", func(it *Interp, a []Val, env *Env) (Val, error) { return a[0], nil })
}

// qq instantiates a quasiquoted template at a nesting level.
func (it *Interp) qq(x Val, level int, env *Env) (Val, error) {
	p, ok := x.(*Pair)
	if !ok {
		return x, nil
	}
	switch p.Car {
	case Sym("quasiquote"):
		v, err := it.qq(Car(p.Cdr), level+1, env)
		if err != nil {
			return nil, err
		}
		return List(p.Car, v), nil
	case Sym("unquote"):
		return it.unq(p, level, env)
	case Sym("unquote-splicing"):
		// only meaningful as an element of a list
		it.Quirk = "unquote-splicing outside a list"
		return it.unq(p, level, env)
	}
	var out []Val
	var rest Val = p
	for rest != nil {
		q, ok := rest.(*Pair)
		if !ok {
			break // (a . b)
		}
		if q2, ok := q.Cdr.(*Pair); q != p && q.Car == Sym("unquote") && ok && q2.Cdr == nil {
			v, err := it.unq(q, level, env) // (a . ,b)
			if err != nil {
				return nil, err
			}
			rest = v
			break
		}
		rest = q.Cdr
		e := q.Car
		if ep, ok := e.(*Pair); ok && ep.Car == Sym("unquote-splicing") && level == 1 {
			v, err := it.unq(ep, level, env)
			if err != nil {
				return nil, err
			}
			if !Proper(v) {
				it.Quirk = "splicing something that is no list"
			}
			out = append(out, Items(v)...)
			continue
		}
		if ep, ok := e.(*Pair); ok && ep.Car == Sym("unquote-splicing") {
			v, err := it.unq(ep, level, env)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
			continue
		}
		v, err := it.qq(e, level, env)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return ListTail(out, rest), nil
}

func (it *Interp) unq(p *Pair, level int, env *Env) (Val, error) {
	a := Car(p.Cdr)
	if level > 1 {
		if ap, ok := a.(*Pair); ok && ap.Car == Sym("unquote-splicing") && level == 2 {
			v, err := it.unq(ap, 1, env)
			if err != nil {
				return nil, err
			}
			if !Proper(v) {
				it.Quirk = "splicing something that is no list"
			}
			return Cons(p.Car, v), nil
		}
		v, err := it.qq(a, level-1, env)
		if err != nil {
			return nil, err
		}
		return List(p.Car, v), nil
	}
	v, err := it.qq(a, 1, env)
	if err != nil {
		return nil, err
	}
	return it.Eval(v, env)
}

// EvalString reads and evaluates the first expression of s.
func (it *Interp) EvalString(s string, env *Env) (Val, error) {
	v, err := Read(s)
	if err != nil {
		if err == ErrEOF {
			return nil, nil
		}
		return nil, err
	}
	return it.Eval(v, env)
}
