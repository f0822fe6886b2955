# writes DESIGN.md
import sys,os,json; V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
import props
P={p['id']:p for p in props.PROPS}
HEAD='''# Model checking golisp

GoLisp is an interpreter for a dialect of Scheme, written in Go, meant to be
embedded in a host program that runs many threads. What a user relies on is
(a) that threads can share frames, environments, channels, atomics, processes
and code, and (b) that every program means what the language says. Both are
statements about *every* schedule, program and history; the tests look at one
schedule and some hundred expressions.

`properties.jsonl` has the properties, `MANIFEST.json` the checks. Both come
from `tools/props.py` (`python3 tools/gen.py`).

## The two machines

### A. Stateless model checking of the real code (C01 to C09)

`mc/build_conc.sh` makes, at each run, an instrumented copy of /repo's working
tree outside /repo (under `.build/`, ignored by git): `mc/cmd/instr` type-checks
the package (go/types) and rewrites *every* synchronisation operation, whatever
its name or place: `sync.Mutex/RWMutex/WaitGroup/Once/...`, channel send,
receive, close, `len`, `range`, `select` with and without default, `go`,
`sync/atomic` functions and types, `time.Sleep/After/NewTimer/Reset/Stop/Now`,
and every map access and every access to a field or package variable (for race
detection), to an element of a slice (indexing, append in place, copy, range, and slices
handed to other packages), and every use of an object of the standard library that is not
safe for several threads (bytes.Buffer, strings.Builder, list.List and the like). They
become calls of `mc/vsched`, a cooperative scheduler: one thread
runs at a time, and each operation is a scheduling point. Nothing in /repo needs a
hook; a refactoring is instrumented like the original because the instrumenter
follows types and not names.

`mc/vsched` models: mutexes and Go's writer-preferring RWMutex (a waiting writer
blocks new readers, which is what makes recursive read locks deadlock),
channels of any capacity with FIFO wait queues, select, timers in *virtual
time* (a step of the clock is one more scheduling choice; both the Go 1.22 and the
Go 1.23 timer semantics are explored, because go.mod of the host decides which
one is in force), atomics, panics and runtime faults (concurrent map access is
reported as the fatal error it is in Go). Vector clocks give happens-before; two
unordered conflicting accesses to an instrumented location are reported as a
race where the property says so.

Scheduling points are all synchronisation operations, and those plain accesses
that were ever seen to race: when the race detector meets an unordered pair of
accesses at a location, that location is *promoted* to a scheduling point and the
exploration of this program starts again. Until nothing new is promoted, accesses
that are ordered by happens-before in every explored run cannot be observed in
another order, so leaving them out loses nothing.

`mc/explore` enumerates schedules by re-execution: *all* schedules that
deviate from a default (run until blocked) schedule in at most *k* places, where
a deviation is a preemption, another choice in a select, or a clock step taken before
it is forced. k is iterated 0, 1, 2, ... up to the bound of the tier. State
hashing is not used, so there is no abstraction: every explored run is a run of the
real code. A replay file is the program and its list of choices.

Oracles: linearizability (C01, C02, C04: the results and final state of every
execution must be those of a sequential execution of the same operations by the
same code compatible with real-time order; the sequential behaviour itself is
checked by machine B), an explicit-state model that is explored exhaustively for
the same program and whose set of outcomes must contain what the real code did
(C05, C07, C08), the result of the program run alone (C09), or the contract as a
predicate (C03, C06). Deadlock (also partial: a thread that waits for ever although the
program's own operations cannot block it), panics and races are violations.

What is trusted: the models of Go's primitives in `mc/vsched`, and sequential
consistency (the race detector covers what sequential consistency would hide).

### B. Explicit-state enumeration against a reference model (C10 to C35)

`mc/build_seq.sh` builds `mc/cmd/mcseq` against /repo's working tree (plain, no
instrumentation). It enumerates *all* programs, call sequences or texts of bounded
families, executes each on the real package in a fresh environment, and compares
value, error, order of effects, and the resulting state (bindings, every alias of every
structure, files) with a reference model: `mc/ref`, an interpreter for the
language written independently of /repo's evaluator, from its documentation and
the meaning of the Scheme it follows (own values, own reader, own printer, own
environments). So a history is a path in the state space of the model, and each is
replayed on the implementation: the conformance check and the exploration are the
same pass. Families are layered: small alphabets exhaustively (all sequences up to a depth),
then boundary values (integers near 2^24, 2^31, 2^53, 2^63; bytes 255/256;
characters outside ASCII), then sizes 0 to 130 for everything that has a length,
so that a fault that depends on a size, a value or a history has to show.

Where the meaning is left open (documentation silent, behaviour an accident), the
reference interpreter raises "open" and the program is skipped and counted in the evidence.
`Left open` below lists these places.

What is trusted: `mc/ref`. It was validated by running it against the real code: each
disagreement was examined; it was a defect in golisp (list of fixes below), an
error in `mc/ref` (corrected), or a quirk a maintainer would defend (the property
was reworded or the case left open).

### Determinism, time, exits

No oracle uses wall-clock time except a generous (several seconds) bound for "this call
does not end" in C16, and there the case is run again alone before it counts. Every check has an
internal deadline; when it is reached, it ends with exit 0 and `exhaustive: false`
in its evidence. Exit codes are 0 or 1 only. A build failure of the instrumented
copy or of the check makes it exit nonzero without a VIOLATION line. The order of exploration is fixed;
VERIF_SEED is not used, because nothing is sampled.

Destructive primitives (`exec`, file primitives) run in a scratch directory with
relative names; `exec` only ever runs `true`; `quit` and `panic!` are not called.

## The properties and how each is decided

Level for C01-C09: "bounded exhaustive schedules of the real code", for C10+:
"bounded exhaustive programs on the real code against a reference model".

'''

import re,glob
RULE={}
for f in glob.glob(V+'/mc/cmd/*/*.go'):
    t=open(f).read()
    for m in re.finditer(r'ID:\s*"(C\d\d)"(?:(?!ID:).)*?Rule:\s*"((?:[^"\\\\]|\\\\.)*)"',t,re.S):
        RULE[m[1]]=m[2]
body=''
for i in sorted(P):
    p=P[i]
    body+=f"### {i} {p['title']}\n\n"
    body+='- What is checked: '+RULE.get(i,'')+'.\n' if i in RULE else ''
    body+=f"- Bounds: {p['quant']}.\n- Oracle: {p['technique']}.\n- Beyond the tests because: {p['why'][0].lower()+p['why'][1:] if not p['why'].startswith('The Go') else p['why']}\n- Anchors: "+', '.join(f"{a} ({b})" for a,b in p['mechanism'])+'.\n'
    n=p['note']
    for c in (props.CNOTE,props.ENOTE): n=n.replace(c,'')
    if n.strip(): body+=f"- {n.strip()}\n"
    body+='\n'

KF=json.load(open(V+'/known_findings.json'))
TAIL="""## Genuine defects found

Repaired in /repo, one "fix:" commit each (%d), all listed in `known_findings.json` under `fixed`:

%s

Recorded as known findings, because a repair would be a redesign (holding locks in
an order along parents; passing the receiver through the call instead of in a flag of the
function; giving send-super a receiver), each identified by its exact case:

%s

## Seen, and left alone

Behaviour that is odd and that no property claims or denies (left open in `mc/ref`):
dotted argument lists in code; frames in quasiquoted templates and splicing something that
is no proper list into them;
memq and the like in something that is no list; the order of frame-keys and of names of an
environment; whether union copies the elements of its first list; comparing improper
association lists; the number of comparisons sort makes; that error quotes its argument;
the same slot in two parents of one frame; whether a name bound to () counts as
assigned; widths of format for text outside ASCII; (- 5) giving 5; pow with a negative
exponent; number->string of floats and of odd bases; cyclic data; an unterminated string
or a lone quote at the end of a text reading as (); "(. 5)" reading as 5; stray closing
brackets reading as symbols; a NUL character in source text; append-bytes of ();
lisp->json of an association list; JSON integers beyond 64 bits; the older Go functions JsonStringToLisp
and LispToJson; exec with a symbol as the command; list-directory in directories with
pattern characters in their names; profile with a file name.

## False alarms met while building, and what was done

- The reference model first copied the naive meaning of several primitives (union, acons, dissoc,
  environment-assigned?, memq of improper lists, the order of frame-keys); the code's behaviour is defensible, so they are left open or follow the code.
- C05 and C07 first treated simultaneous events (a reset at the due time itself) as ordered;
  both orders are now allowed.
- C07 first assumed one timer semantics; both of Go's are now explored, and either must satisfy the property.
- C01: lookups that hold the frame's lock while visiting a parent make cyclic parents deadlock only with
  two lookups and two writers. This is genuine (known finding), not an alarm; a smaller relative of it was repaired.
- C16 first took long loops (make-list of 10^9) for hangs; requests too large for memory are exempt in the statement.
- C09: programs that set slots of a shared method's frame were removed: they share data they change.

## Planted bugs

`seeded/` has the planted bugs, each with its demonstration; all are confirmed to compile, to pass
the 562 stable tests and to be shown by the demonstration. "Caught" means the quick
check of its property exits 1 with its VIOLATION line. Three more bugs were planted in
the lisp libraries (a stream filter that computes an element too many, a memo that is marked
as run before its value is known: both C34; equal failures of a test run counted once: C35).
They are caught, and not listed because planted bugs may only change Go sources; the first
was missed until C34 got its "needs" case.

%s
"""
fx='\n'.join('- '+re.sub(r'^fixed: property=(\S+) (\S+) ',r'\1 \2: ',f) for f in KF['fixed'])
fi='\n'.join(f"- {f['property']}: {f['what']} (case `{f['case']}`)" for f in KF['findings'])
det={}
if os.path.exists(V+'/tools/detect.json'): det=json.load(open(V+'/tools/detect.json'))
rows=['| bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(os.listdir(V+'/seeded')) if os.path.isdir(V+'/seeded') else []:
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {det.get(d,'?')} |")
rows.sort(key=lambda r:r.split('|')[2]) if 0 else None
open(V+'/DESIGN.md','w').write(HEAD+body+TAIL%(len(KF['fixed']),fx,fi,'\n'.join(rows)))
