package main

import (
	"fmt"
	"strings"

	"verif/mc/core"
)

// one value of every kind; the objects are those of the setup below
var kindVals = [][2]string{
	{"int", "5"}, {"float", "1.5"}, {"string", `"s"`}, {"symbol", "'x"}, {"list", "(list 1 2)"}, {"nil", "'()"}, {"bool", "#t"}, {"frame", "fr"}, {"proc1", "(lambda (p) p)"}, {"proc2", "(lambda (p a) p)"}, {"macro", "mac"}, {"prim", "car"},
	{"bytes", "by"}, {"channel", "ch"}, {"atomic", "at"}, {"process", "pr"}, {"env", "(the-environment)"}, {"pair", "'(1 . 2)"},
}

var kindSetup = []string{
	"(define by (list->bytearray '(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40)))",
	"(define ch (make-channel 4))", "(channel-write ch 1)", "(define at (atomic 5))", "(define pr (fork (lambda (p) 7)))", "(define fr {a: 1})", "(defmacro (mac p) p)",
}

// wrongKinds checks that name, which takes arguments of the given kinds
// ("*": any), is an error with any other value in any place (a kind may be
// several, separated by |) and leaves what it was given alone. pr is a forked
// process, joined afterwards.
func wrongKinds(G *core.G, name string, kinds ...string) {
	valOf := func(k string) string {
		for _, v := range kindVals {
			if v[0] == strings.Split(k, "|")[0] || k == "*" {
				return v[1]
			}
		}
		return k
	}
	var exprs []string
	var outs []string
	for i, k := range kinds { // ("none": every kind is wrong)
		if k == "*" {
			continue
		}
		for _, v := range kindVals {
			ok := false
			for _, o := range strings.Split(k, "|") {
				ok = ok || o == v[0]
			}
			if ok {
				continue
			}
			var a []string
			for j, k2 := range kinds {
				if j == i {
					a = append(a, v[1])
				} else {
					a = append(a, valOf(k2))
				}
			}
			exprs = append(exprs, fmt.Sprintf("(on-error (%s %s) (lambda (e) 'err))", name, strings.Join(a, " ")))
			outs = append(outs, "err")
		}
	}
	if len(exprs) == 0 {
		return
	}
	post := []string{"(atomic-load at)", "(bytearray->list by)", "(channel-try-read ch)", "(channel-try-read ch)", "(join pr)", "(equal? fr {a: 1})"}
	allow(G, "wrong kinds "+name, kindSetup, [][]string{exprs}, post, 0, strings.Join(outs, ",")+" => 5,(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40),(#t 1 #t),(#f () #t),7,#t")
}
