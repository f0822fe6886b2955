package main

import (
	"fmt"
	"strings"

	"verif/mc/core"
)

var argNames = []string{"a", "b", "c", "d", "e"}

// callProg binds the arguments to variables, calls fn on the variables and
// looks at the result and at the arguments afterwards.
func callProg(fn string, args []string) Prog {
	var p Prog
	for i, a := range args {
		p.Src = append(p.Src, fmt.Sprintf("(define %s %s)", argNames[i], a))
		p.Watch = append(p.Watch, argNames[i])
	}
	p.Src = append(p.Src, fmt.Sprintf("(define r (%s %s))", fn, strings.Join(argNames[:len(args)], " ")))
	p.Watch = append(p.Watch, "r")
	return p
}

// calls is one case: fn over every choice of arguments.
func calls(gg *core.G, label, fn string, alph ...[]string) {
	gg.Case(label+" "+fn, func(t *core.T) {
		product(alph, func(v []string) {
			if t.Expired() || t.Failed() {
				return
			}
			diff(t, callProg(fn, v))
		})
	})
}

// progs is one case: every way to fill the holes of a program template; steps
// are separated by |.
func progs(gg *core.G, label, tpl, watch string, alph ...[]string) {
	gg.Case(label+" "+tpl, func(t *core.T) {
		product(alph, func(v []string) {
			if t.Expired() || t.Failed() {
				return
			}
			p := Prog{Src: strings.Split(fill(tpl, v), "|")}
			if watch != "" {
				p.Watch = strings.Split(watch, "|")
			}
			diff(t, p)
		})
	})
}

// lists are the quoted lists of the words over elems of length lo..hi.
func lists(elems []string, lo, hi int) []string {
	var r []string
	for k := lo; k <= hi; k++ {
		power(elems, k, func(v []string) { r = append(r, "'("+strings.Join(v, " ")+")") })
	}
	return r
}

// freshLists builds the lists at run time.
func freshLists(elems []string, lo, hi int) []string {
	var r []string
	for k := lo; k <= hi; k++ {
		power(elems, k, func(v []string) { r = append(r, "(list "+strings.Join(v, " ")+")") })
	}
	return r
}

func distinct(n int) string {
	return "'(" + rep(n, func(i int) string { return fmt.Sprint(i + 10) }) + ")"
}

func distincts(ns ...int) []string {
	var r []string
	for _, n := range ns {
		r = append(r, distinct(n))
	}
	return r
}

func ints(lo, hi int) []string {
	var r []string
	for i := lo; i <= hi; i++ {
		r = append(r, fmt.Sprint(i))
	}
	return r
}

func cat(l ...[]string) []string {
	var r []string
	for _, x := range l {
		r = append(r, x...)
	}
	return r
}

// values of every kind
var anyValues = []string{"0", "5", "-1", "1.5", "\"\"", "\"ab\"", "'sym", "'key:", "#t", "#f", "()", "'(1 2)", "'(1 . 2)", "'((x . 1) (y . 2))", "[1 2]", "{a: 1}", "(lambda (x) x)", "car", "'(())", "(mc-host)"}

var sizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130}
