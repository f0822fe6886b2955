package ref

// The environment primitives.

func init() {
	envArg := func(a A) (*Env, bool) { e, ok := a[0].(*Env); return e, ok }
	one := func(name string, f func(it *Interp, e *Env) (Val, error)) {
		def(name, "1", func(it *Interp, a A, env *Env) (Val, error) {
			e, ok := envArg(a)
			if !ok {
				return nil, lerr(name)
			}
			return f(it, e)
		})
	}
	two := func(name string, f func(it *Interp, e *Env, s string, b *Binding) (Val, error)) {
		def(name, "2", func(it *Interp, a A, env *Env) (Val, error) {
			e, ok := envArg(a)
			s, ok2 := a[1].(Sym)
			if !ok || !ok2 {
				return nil, lerr(name)
			}
			return f(it, e, string(s), e.find(string(s)))
		})
	}
	isMacro := func(v Val) bool { _, ok := v.(*Macro); return ok }
	pred("environment?", func(v Val) bool { _, ok := v.(*Env); return ok })
	one("environment-has-parent?", func(it *Interp, e *Env) (Val, error) { return e.Parent != nil, nil })
	one("environment-parent", func(it *Interp, e *Env) (Val, error) {
		if e.Parent == nil {
			return nil, nil
		}
		return e.Parent, nil
	})
	names := func(it *Interp, e *Env) []string {
		m := map[string]Val{}
		for k := range e.M {
			m[k] = nil
		}
		if len(m) > 1 {
			it.orderQuirk("order of names")
		}
		return sortedKeys(m)
	}
	one("environment-bound-names", func(it *Interp, e *Env) (Val, error) {
		var l []Val
		for _, k := range names(it, e) {
			l = append(l, Sym(k))
		}
		return List(l...), nil
	})
	one("environment-macro-names", func(it *Interp, e *Env) (Val, error) {
		var l []Val
		for _, k := range names(it, e) {
			if isMacro(e.M[k].Val) {
				l = append(l, Sym(k))
			}
		}
		return List(l...), nil
	})
	one("environment-bindings", func(it *Interp, e *Env) (Val, error) {
		var l []Val
		for _, k := range names(it, e) {
			if v := e.M[k].Val; v == nil {
				l = append(l, List(Sym(k)))
			} else {
				l = append(l, List(Sym(k), v))
			}
		}
		return List(l...), nil
	})
	// A name bound without a value is unassigned; whether one bound to () is
	// too is left open.
	unassigned := func(it *Interp, b *Binding) bool {
		if b.Val == nil && !b.Unassigned {
			it.Quirk = "bound to ()"
		}
		return b.Val == nil
	}
	two("environment-reference-type", func(it *Interp, e *Env, s string, b *Binding) (Val, error) {
		switch {
		case b == nil:
			return Sym("unbound"), nil
		case unassigned(it, b):
			return Sym("unassigned"), nil
		case isMacro(b.Val):
			return Sym("macro"), nil
		}
		return Sym("normal"), nil
	})
	bound := func(it *Interp, e *Env, s string, b *Binding) (Val, error) { return b != nil, nil }
	two("environment-bound?", bound)
	two("environment-assignable?", bound)
	two("environment-definable?", func(it *Interp, e *Env, s string, b *Binding) (Val, error) { return true, nil })
	two("environment-assigned?", func(it *Interp, e *Env, s string, b *Binding) (Val, error) {
		if b == nil || isMacro(b.Val) {
			return nil, lerr("environment-assigned?")
		}
		return !unassigned(it, b), nil
	})
	two("environment-lookup", func(it *Interp, e *Env, s string, b *Binding) (Val, error) {
		if b == nil || isMacro(b.Val) || unassigned(it, b) {
			return nil, lerr("environment-lookup")
		}
		return b.Val, nil
	})
	two("environment-lookup-macro", func(it *Interp, e *Env, s string, b *Binding) (Val, error) {
		if b != nil && isMacro(b.Val) {
			return b.Val, nil
		}
		return false, nil
	})
	def("environment-assign!", "3", func(it *Interp, a A, env *Env) (Val, error) {
		e, ok := envArg(a)
		s, ok2 := a[1].(Sym)
		if !ok || !ok2 {
			return nil, lerr("environment-assign!")
		}
		b := e.find(string(s))
		if b == nil {
			return nil, nil
		}
		if b.Protected {
			return nil, lerr("protected")
		}
		b.Val, b.Unassigned = a[2], false
		return a[2], nil
	})
	def("environment-define", "3", func(it *Interp, a A, env *Env) (Val, error) {
		e, ok := envArg(a)
		s, ok2 := a[1].(Sym)
		if !ok || !ok2 {
			return nil, lerr("environment-define")
		}
		return a[2], e.BindLocal(string(s), a[2])
	})
	def("system-global-environment", "0", func(it *Interp, a A, env *Env) (Val, error) { return it.Global, nil })
	def("the-environment", "0", func(it *Interp, a A, env *Env) (Val, error) {
		if env == it.Global || env.Parent == it.Global {
			return env, nil
		}
		return nil, lerr("the-environment")
	})
	def("make-top-level-environment", "1|2|3", func(it *Interp, a A, env *Env) (Val, error) {
		name := ""
		if s, ok := a[0].(*Str); ok {
			name = s.S
			a = a[1:]
		}
		e := NewEnv(it.Global, nil, name)
		if len(a) > 2 {
			it.Quirk = "make-top-level-environment"
			return e, nil
		}
		var ns, vs []Val
		if len(a) >= 1 {
			if !IsList(a[0]) {
				return nil, lerr("names")
			}
			ns = it.items(a[0])
		}
		if len(a) == 2 {
			if !IsList(a[1]) {
				return nil, lerr("values")
			}
			vs = it.items(a[1])
			if len(vs) != len(ns) {
				return nil, lerr("length")
			}
		}
		for i, n := range ns {
			s, ok := n.(Sym)
			if !ok {
				return nil, lerr("symbols")
			}
			var v Val
			if vs != nil {
				v = vs[i]
			}
			if err := e.BindLocal(string(s), v); err != nil {
				return nil, err
			}
			e.M[string(s)].Unassigned = len(a) == 1
		}
		if it.Named == nil {
			it.Named = map[string]*Env{}
		}
		it.Named[name] = e
		return e, nil
	})
	def("find-top-level-environment", "1", func(it *Interp, a A, env *Env) (Val, error) {
		var n string
		switch x := a[0].(type) {
		case *Str:
			n = x.S
		case Sym:
			n = string(x)
		default:
			return nil, lerr("find-top-level-environment")
		}
		if e := it.Named[n]; e != nil {
			return e, nil
		}
		it.Quirk = "environment of an earlier program"
		return nil, nil
	})
	def("procedure-environment", "1", func(it *Interp, a A, env *Env) (Val, error) {
		c, ok := a[0].(*Closure)
		if !ok || env.Restricted && !c.Env.Restricted {
			return nil, lerr("procedure-environment")
		}
		return c.Env, nil
	})
	def("restrict-environment", "0", func(it *Interp, a A, env *Env) (Val, error) {
		env.Restricted = true
		return S("OK"), nil
	})
	for _, n := range []string{"environment-parent", "system-global-environment", "make-top-level-environment", "find-top-level-environment"} {
		prims[n].Restricted = true
	}
}
