package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	g "github.com/steelseries/golisp"

	"verif/mc/core"
	"verif/mc/explore"
	"verif/mc/vsched"
)

func init() {
	core.Register(&core.Check{
		ID: "C03", Level: "model_checking", SelfConfirm: true, Stall: 120 * time.Second,
		Rule:        "every schedule (up to the stated preemptions) of 2 to 4 threads that intern or read symbols and generate symbols, with equal, overlapping and different names: one identity per name, never two equal generated names; and every order of up to 4 such operations by one thread",
		Assumptions: []string{"identity of a symbol is the identity of the datum returned by the Go API"},
		Gen:         c03, Quick: 300 * time.Second, Thorough: 2000 * time.Second,
	})
}

// fresh makes a name no earlier execution used; the same for all threads of one.
var freshN int

// c03case: ops are "i:NAME" (intern), "p:SRC" (read source text and take the
// symbols of it), "e:SRC" (evaluate and take the symbol), where ~ is replaced
// by a fresh name.
func c03case(G *core.G, name string, ths [][]string, bound int) {
	G.Case(name, func(t *core.T) {
		body := func() (string, string) {
			freshN++
			fr := fmt.Sprintf("q%dz", freshN)
			env := newEnv()
			got := make([][]*g.Data, len(ths))
			var fs []func()
			for i := range ths {
				i := i
				var run []func()
				for _, o := range ths[i] {
					src := strings.ReplaceAll(o[2:], "~", fr)
					switch o[0] {
					case 'i':
						run = append(run, func() { got[i] = append(got[i], g.Intern(src)) })
					case 'p':
						run = append(run, func() {
							d, err := g.Parse(src)
							if err != nil {
								panic(err)
							}
							for c := d; g.NotNilP(c); c = g.Cdr(c) {
								if g.SymbolP(g.Car(c)) {
									got[i] = append(got[i], g.Car(c))
								}
							}
						})
					case 'e':
						d := parse(src)
						run = append(run, func() {
							v, err := g.Eval(d, env)
							if err != nil {
								panic(err)
							}
							got[i] = append(got[i], v)
						})
					}
				}
				fs = append(fs, func() {
					for _, r := range run {
						r()
					}
				})
			}
			if len(fs) == 1 {
				vsched.StartRun()
				fs[0]()
			} else {
				vsched.Parallel(fs...)
			}
			vsched.Post()
			seen := map[string]*g.Data{}
			gens := map[string]int{}
			var all []string
			bad := ""
			for i := range got {
				k := 0
				for _, d := range got[i] {
					n := g.StringValue(d)
					all = append(all, strings.ReplaceAll(n, fr, "~"))
					_ = k
					if strings.HasPrefix(n, "G"+fr) || strings.HasPrefix(n, "G2"+fr) {
						gens[n]++
						if gens[n] > 1 {
							bad = "the same generated symbol came twice: " + n
						}
						continue
					}
					if o, ok := seen[n]; ok && o != d {
						bad = "two symbols of one name " + n + " are not the same datum"
					}
					seen[n] = d
					if g.Intern(n) != d {
						bad = "the symbol " + n + " handed out is not the interned one"
					}
				}
			}
			for n, d := range seen {
				if g.Intern(n) != d {
					bad = "the symbol " + n + " handed out is not the interned one"
				}
			}
			sort.Strings(all)
			return strings.Join(all, " "), strings.ReplaceAll(bad, fr, "~")
		}
		explore.Explore(t, &explore.Config{Name: name, Body: body, Bound: bound, Budget: 60 * time.Second})
	})
}

func c03(G *core.G) {
	q := !G.Thorough()
	b2, b3 := 5, 3
	if !q {
		b2, b3 = 8, 4
	}
	ops := []string{"i:~a", "i:~b", "p:(~a ~b)", "p:(~a: x ~a)", `e:(intern "~a")`, "i:car", "i:~a:", "p:(~c '~a)", `e:(car '(~a))`}
	for i, a := range ops {
		for j := i; j < len(ops); j++ {
			c03case(G, "intern "+a+" || "+ops[j], [][]string{{a}, {ops[j]}}, b2)
			c03case(G, "intern2 "+a+" || "+ops[j], [][]string{{a, "i:~b"}, {ops[j], "i:~a"}}, 3)
		}
	}
	for i, a := range ops {
		for j := i; j < len(ops); j++ {
			c03case(G, "intern3 "+a+" || "+ops[j], [][]string{{a}, {ops[j]}, {"i:~a"}}, b3)
		}
	}
	// the generated names all start with G or G2 and the fresh name
	gs := []string{`e:(gensym "G~")`, `e:(gensym-naked "G~")`, `e:(gensym 'G~)`, `e:(gensym "G2~")`, "e:(gensym-naked 'G~)", `e:(gensym "G~-0")`, `e:(gensym "G~-1")`}
	for i, a := range gs {
		for j := i; j < len(gs); j++ {
			c03case(G, "gensym "+a+" || "+gs[j], [][]string{{a}, {gs[j]}}, b2)
			c03case(G, "gensym2 "+a+" || "+gs[j], [][]string{{a, gs[j]}, {gs[j], a}}, 3)
			c03case(G, "gensym3 "+a+" || "+gs[j], [][]string{{a}, {gs[j]}, {a}}, b3)
		}
	}
	// one thread
	seqOps := append(append([]string{}, ops[:5]...), gs...)
	for i := range seqOps {
		for j := range seqOps {
			i, j := i, j
			G.Case(fmt.Sprintf("sequence %s %s", seqOps[i], seqOps[j]), func(t *core.T) {
				core.Inline(func(g2 *core.G) {
					for k := range seqOps {
						for l := range seqOps {
							if q && (i+j+k+l)%3 != 0 {
								continue
							}
							c03case(g2, fmt.Sprint(seqOps[k], seqOps[l]), [][]string{{seqOps[i], seqOps[j], seqOps[k], seqOps[l]}}, 0)
						}
					}
				}, t)
			})
		}
	}
	for _, n := range []int{9, 65, 101} {
		var th []string
		for i := 0; i < n; i++ {
			th = append(th, `e:(gensym "G~")`)
		}
		c03case(G, fmt.Sprintf("gensym %d times", n), [][]string{th}, 0)
		c03case(G, fmt.Sprintf("gensym %d times || once", n), [][]string{th, {`e:(gensym "G~")`}}, 1)
	}
	// names of every length and of every kind of character, and very many of them
	G.Case("names of every length", func(t *core.T) {
		lens := []int{}
		for n := 1; n <= 300; n++ {
			lens = append(lens, n)
		}
		for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537} {
			lens = append(lens, n)
		}
		for _, n := range lens {
			for _, pat := range []string{"a", "Ab-", "z9?!", "é", "日本", "a:", "*", "x "} {
				s := strings.Repeat(pat, n/len(pat)+1)
				same(t, s[:n-n%len(pat)]+"q")
				same(t, "q"+s[:n-n%len(pat)])
			}
		}
		for _, n := range []string{"", " ", "()", "'", "\"", "1", "#t", "nil", "car", "A", "a", "a:", "a:!", ":", "*", "p*:"} {
			same(t, n)
		}
		for r := rune(1); r < 0x3000; r++ {
			same(t, string(r))
			same(t, "x"+string(r))
		}
	})
	G.Case("very many names", func(t *core.T) {
		const n = 40000
		var d [n]*g.Data
		for i := range d {
			d[i] = g.Intern(fmt.Sprintf("many-%d", i))
		}
		for i := range d {
			if g.Intern(fmt.Sprintf("many-%d", i)) != d[i] || g.StringValue(d[i]) != fmt.Sprintf("many-%d", i) {
				t.Fail("oracle", "the %dth of %d names was interned as two symbols", i, n)
				return
			}
			t.Trace(1)
		}
	})
	G.Case("gensym with prefixes of every length", func(t *core.T) {
		freshN++
		env := newEnv()
		for n := 0; n <= 130; n++ {
			pre := fmt.Sprintf("k%d%s", freshN, strings.Repeat("x", n))
			for k := 0; k < 3; k++ {
				for _, f := range []string{"gensym", "gensym-naked"} {
					v, err := g.Eval(parse(fmt.Sprintf("(%s \"%s\")", f, pre)), env)
					// the two share their counter
					want := fmt.Sprintf("%s-%d", pre, 2*k)
					if f == "gensym-naked" {
						want = fmt.Sprintf("%s-%d:", pre, 2*k+1)
					}
					if err != nil || g.StringValue(v) != want {
						t.Fail("oracle", "(%s %q), call %d: %s instead of %s", f, pre, k, g.StringValue(v), want)
						return
					}
					t.Trace(1)
				}
			}
		}
	})
}

func same(t *core.T, n string) {
	t.Trace(1)
	a := g.Intern(n)
	if a != g.Intern(n) || g.StringValue(a) != n || !g.SymbolP(a) {
		t.Fail("oracle", "the name %q was interned as two symbols, or another one", n)
	}
}
