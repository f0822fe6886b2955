From ef7f7df2fc5938fbe6bcc1b7ce8050993d2fb62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 01/57] fix: read a slot and check that it exists in one step

---
 frame.go              | 40 ++++++++++++++++++++++++++++++++++++++++
 prim_frame.go         |  5 +++--
 symbol_table_frame.go |  3 +--
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/frame.go b/frame.go
index 2430579..d63aab3 100644
--- a/frame.go
+++ b/frame.go
@@ -131,6 +131,46 @@ func (self *FrameMap) Get(key string) (ret *Data) {
 
 //------------------------------------------------------------
 
+func (self *FrameMap) lookupHelper(key string, v *set.Set) (val *Data, found bool) {
+	if v.Has(self) {
+		return nil, false
+	}
+
+	v.Add(self)
+
+	val, found = self.Data[key]
+	if found {
+		return
+	}
+
+	for _, p := range self.Parents() {
+		if v.Has(p) {
+			continue
+		}
+		p.Mutex.RLock()
+		parentVal, inParent := p.lookupHelper(key, v)
+		p.Mutex.RUnlock()
+		if parentVal != nil {
+			return parentVal, true
+		}
+		found = found || inParent
+	}
+
+	return nil, found
+}
+
+// Lookup reads a slot and reports whether it exists in a single step, so that the slot can't
+// come or go in between, the way it can between a HasSlot and a Get.
+func (self *FrameMap) Lookup(key string) (val *Data, found bool) {
+	visited := set.New()
+	self.Mutex.RLock()
+	val, found = self.lookupHelper(key, visited)
+	self.Mutex.RUnlock()
+	return
+}
+
+//------------------------------------------------------------
+
 func (self *FrameMap) Remove(key string) bool {
 	self.Mutex.Lock()
 	if !self.hasSlotLocally(key) {
diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..e244d29 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -82,12 +82,13 @@ func GetSlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	value, found := FrameValue(f).Lookup(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("get-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	return FrameValue(f).Get(StringValue(k)), nil
+	return value, nil
 }
 
 func GetSlotOrNilImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..41a4ff4 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -290,8 +290,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 	if self.HasFrame() {
 		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
-		if f.HasSlot(naked) {
-			slotValue := f.Get(naked)
+		if slotValue, found := f.Lookup(naked); found {
 			if FunctionP(slotValue) {
 				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
 				return slotValue
-- 
2.43.0


From 7809c5f8672a9e609cd422cdabbdb4bc1b59fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 02/57] fix: slot lookup panics on a parent slot that holds no
 frame

---
 frame.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frame.go b/frame.go
index d63aab3..71dd960 100644
--- a/frame.go
+++ b/frame.go
@@ -52,6 +52,9 @@ func (self *FrameMap) Parents() []*FrameMap {
 	parents := make([]*FrameMap, 0, 0)
 	for k, v := range self.Data {
 		if isParentKey(k) && v != nil {
+			if !FrameP(v) {
+				continue
+			}
 			parents = append(parents, FrameValue(v))
 		}
 	}
-- 
2.43.0


From 1fecc92ab3c3cab19c853a461f09967399f50e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 03/57] fix: slot lookup in cyclic parents locks a frame twice
 and can deadlock

---
 frame.go      |  6 ++++++
 prim_frame.go | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index 71dd960..7c904ad 100644
--- a/frame.go
+++ b/frame.go
@@ -79,6 +79,9 @@ func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
 	}
 
 	for _, p := range self.Parents() {
+		if v.Has(p) {
+			continue
+		}
 		p.Mutex.RLock()
 		hasSlot := p.hasSlotHelper(key, v)
 		p.Mutex.RUnlock()
@@ -113,6 +116,9 @@ func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
 	}
 
 	for _, p := range self.Parents() {
+		if v.Has(p) {
+			continue
+		}
 		p.Mutex.RLock()
 		val := p.getHelper(key, v)
 		p.Mutex.RUnlock()
diff --git a/prim_frame.go b/prim_frame.go
index e244d29..b2a80d0 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -9,6 +9,8 @@ package golisp
 
 import (
 	"fmt"
+
+	"github.com/SteelSeries/set.v0"
 )
 
 func RegisterFramePrimitives() {
@@ -183,7 +185,14 @@ func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
 	f.Mutex.RLock()
 	defer f.Mutex.RUnlock()
 	for _, p := range f.Parents() {
-		fun := p.Get(selector)
+		visited := set.New()
+		visited.Add(f)
+		if visited.Has(p) {
+			continue
+		}
+		p.Mutex.RLock()
+		fun := p.getHelper(selector, visited)
+		p.Mutex.RUnlock()
 		if fun != nil {
 			return fun
 		}
-- 
2.43.0


From c2f19547c4ea906b72e52e209b8010fcc7853248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:42 +0000
Subject: [PATCH 04/57] fix: comparing frames can deadlock with concurrent
 writers

---
 data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data.go b/data.go
index dcfe12f..f883d65 100644
--- a/data.go
+++ b/data.go
@@ -872,6 +872,13 @@ func IsEqual(d *Data, o *Data) bool {
 	if FrameP(d) {
 		frameD := FrameValue(d)
 		frameO := FrameValue(o)
+		if frameD == frameO {
+			return true
+		}
+		// always lock in the same order, whichever way around the frames are compared
+		if uintptr(unsafe.Pointer(frameO)) < uintptr(unsafe.Pointer(frameD)) {
+			frameD, frameO = frameO, frameD
+		}
 		frameD.Mutex.RLock()
 		frameO.Mutex.RLock()
 		if len(frameD.Data) != len(frameO.Data) {
-- 
2.43.0


From 287517017f912f000357c1ac5cb7d144fef907fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 05/57] fix: interning one name from two threads can create two
 symbols

---
 symbol_table_frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 41a4ff4..e218160 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -52,6 +52,11 @@ func Intern(name string) (sym *Data) {
 	internedSymbols.Mutex.RUnlock()
 	if sym == nil {
 		internedSymbols.Mutex.Lock()
+		// it may have been interned since the lookup above
+		if existing := internedSymbols.Symbols[name]; existing != nil {
+			internedSymbols.Mutex.Unlock()
+			return existing
+		}
 		sym = SymbolWithName(name)
 		internedSymbols.Symbols[name] = sym
 		internedSymbols.Mutex.Unlock()
-- 
2.43.0


From dcd3b75e3d22f736a1e13cc0c90fb058b52358fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 06/57] fix: listing the bindings of an environment races with
 definitions in it

---
 prim_environment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..44ce238 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -65,6 +65,8 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
+	e.Mutex.RLock()
+	defer e.Mutex.RUnlock()
 	for _, val := range e.Bindings {
 		keys = append(keys, val.Sym)
 	}
@@ -78,6 +80,8 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
+	e.Mutex.RLock()
+	defer e.Mutex.RUnlock()
 	for _, val := range e.Bindings {
 		if MacroP(val.Val) {
 			keys = append(keys, val.Sym)
@@ -93,6 +97,8 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
+	e.Mutex.RLock()
+	defer e.Mutex.RUnlock()
 	for _, val := range e.Bindings {
 		if NilP(val.Val) {
 			keys = append(keys, InternalMakeList(val.Sym))
-- 
2.43.0


From 743a69e0d6e488d3c9a5519ed94eec39ee3ee136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:27 +0000
Subject: [PATCH 07/57] fix: a process forked from a function already forked
 mistakes which process it is

---
 function.go           | 25 +++++++++++++++++--------
 prim_concurrency.go   | 21 ++++++---------------
 symbol_table_frame.go | 11 +++++++++--
 3 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/function.go b/function.go
index 4bdd440..087bc58 100644
--- a/function.go
+++ b/function.go
@@ -23,7 +23,6 @@ type Function struct {
 	Env              *SymbolTableFrame
 	DebugOnEntry     bool
 	SlotFunction     int32
-	ParentProcess    *Process
 }
 
 func computeRequiredArgumentCount(args *Data) (requiredArgumentCount int, varArgs bool) {
@@ -97,7 +96,7 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	return nil
 }
 
-func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (result *Data, err error) {
+func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool, proc *Process) (result *Data, err error) {
 	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
@@ -116,9 +115,14 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 		}
 	}
 
+	// a call runs in the process of its caller unless it starts a new one
+	if proc == nil && argEnv != nil {
+		proc = argEnv.Process
+	}
+	localEnv.Process = proc
 	parentProcSym := Intern("parentProcess")
-	if self.ParentProcess != nil {
-		procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(self.ParentProcess))
+	if proc != nil {
+		procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 		_, err = localEnv.BindLocallyTo(parentProcSym, procObj)
 		if err != nil {
 			return
@@ -148,19 +152,24 @@ func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame
 }
 
 func (self *Function) Apply(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, true)
+	return self.internalApply(args, argEnv, nil, true, nil)
 }
 
 func (self *Function) ApplyWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, true)
+	return self.internalApply(args, argEnv, frame, true, nil)
 }
 
 func (self *Function) ApplyWithoutEval(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	return self.internalApply(args, argEnv, nil, false)
+	return self.internalApply(args, argEnv, nil, false, nil)
 }
 
 func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableFrame, frame *FrameMap) (result *Data, err error) {
-	return self.internalApply(args, argEnv, frame, false)
+	return self.internalApply(args, argEnv, frame, false, nil)
+}
+
+// ApplyInProcess is ApplyWithoutEval, with the call being what proc runs.
+func (self *Function) ApplyInProcess(args *Data, argEnv *SymbolTableFrame, proc *Process) (result *Data, err error) {
+	return self.internalApply(args, argEnv, nil, false, proc)
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
diff --git a/prim_concurrency.go b/prim_concurrency.go
index f423be9..a233c75 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -76,8 +76,6 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
-
 	go func() {
 		var returnValue *Data
 		defer func() {
@@ -86,7 +84,7 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 		callWithPanicProtection(func() {
 			var forkedErr error
-			returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cdr(args)), env)
+			returnValue, forkedErr = function.ApplyInProcess(Cons(procObj, Cdr(args)), env, proc)
 			if forkedErr != nil {
 				fmt.Println(forkedErr)
 			}
@@ -174,8 +172,6 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
-
 	go func() {
 		var returnValue *Data
 		defer func() {
@@ -191,7 +187,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
 				case <-proc.ScheduleTimer.C:
 					var forkedErr error
-					returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), env)
+					returnValue, forkedErr = function.ApplyInProcess(Cons(procObj, Cddr(args)), env, proc)
 					if forkedErr != nil {
 						fmt.Println(forkedErr)
 					}
@@ -260,15 +256,10 @@ func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	proc := (*Process)(ObjectValue(procObj))
 
 	// Check for early exit if joining on the current proc
-	parentProcData := env.ValueOf(SymbolWithName("parentProcess"))
-	if NotNilP(parentProcData) && ObjectP(parentProcData) && ObjectType(parentProcData) == "Process" {
-		parentProc := (*Process)(ObjectValue(parentProcData))
-
-		if proc == parentProc {
-			// Oh no, we're in our own process!  Bail out!
-			// But we want it to complete, so we're not treating it as an error
-			return nil, nil
-		}
+	if proc == env.Process {
+		// Oh no, we're in our own process!  Bail out!
+		// But we want it to complete, so we're not treating it as an error
+		return nil, nil
 	}
 
 	if atomic.CompareAndSwapInt32(&proc.Joined, 0, 1) {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index e218160..3be9b54 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -25,6 +25,7 @@ type SymbolTableFrame struct {
 	Parent       *SymbolTableFrame
 	Previous     *SymbolTableFrame
 	Frame        *FrameMap
+	Process      *Process
 	Bindings     map[string]*Binding
 	Mutex        sync.RWMutex
 	CurrentCode  *list.List
@@ -136,11 +137,13 @@ func (self *SymbolTableFrame) DumpHeader() {
 
 func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
 	var f *FrameMap = nil
+	var proc *Process = nil
 	if p != nil {
 		f = p.Frame
+		proc = p.Process
 	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, Process: proc, CurrentCode: list.New(), IsRestricted: restricted}
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
@@ -153,8 +156,12 @@ func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name st
 	if f == nil {
 		f = p.Frame
 	}
+	var proc *Process = nil
+	if p != nil {
+		proc = p.Process
+	}
 	restricted := p != nil && p.IsRestricted
-	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
+	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, Process: proc, CurrentCode: list.New(), IsRestricted: restricted}
 	if p == nil || p == Global {
 		TopLevelEnvironments.Mutex.Lock()
 		TopLevelEnvironments.Environments[name] = env
-- 
2.43.0


From d649194a0ffffd3b5244304b7eb4b73291d15aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:42 +0000
Subject: [PATCH 08/57] fix: a scheduled process can miss an abandon or reset
 made before it is due

---
 prim_concurrency.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index a233c75..9bc55c5 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -26,9 +26,22 @@ type Process struct {
 	Restart       chan empty
 	ReturnValue   chan *Data
 	Joined        int32
+	Finished      int32
 	ScheduleTimer *time.Timer
 }
 
+// restartTimer makes a scheduled process wait for all of delay again, even if
+// its timer has fired unnoticed.
+func (self *Process) restartTimer(delay time.Duration) {
+	if !self.ScheduleTimer.Stop() {
+		select {
+		case <-self.ScheduleTimer.C:
+		default:
+		}
+	}
+	self.ScheduleTimer.Reset(delay)
+}
+
 func RegisterConcurrencyPrimitives() {
 	MakePrimitiveFunction("fork", ">=1", ForkImpl)
 	MakePrimitiveFunction("proc-sleep", "2", ProcSleepImpl)
@@ -182,10 +195,22 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			for {
 				select {
 				case <-proc.Abort:
+					atomic.StoreInt32(&proc.Finished, 1)
 					break Loop
 				case <-proc.Restart:
-					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
+					proc.restartTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)
 				case <-proc.ScheduleTimer.C:
+					// an abandon or reset from before the timer fired comes first
+					select {
+					case <-proc.Abort:
+						atomic.StoreInt32(&proc.Finished, 1)
+						break Loop
+					case <-proc.Restart:
+						proc.restartTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)
+						continue Loop
+					default:
+					}
+					atomic.StoreInt32(&proc.Finished, 1)
 					var forkedErr error
 					returnValue, forkedErr = function.ApplyInProcess(Cons(procObj, Cddr(args)), env, proc)
 					if forkedErr != nil {
@@ -236,14 +261,15 @@ func ResetTimeoutImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 		return nil, ProcessError("tried to reset a Process that isn't scheduled", env)
 	}
 
-	var str string
+	if atomic.LoadInt32(&proc.Finished) == 1 {
+		return StringWithValue("task was already completed or abandoned"), nil
+	}
 	select {
 	case proc.Restart <- empty{}:
-		str = "OK"
 	default:
-		str = "task was already completed or abandoned"
+		// a reset is already pending
 	}
-	return StringWithValue(str), nil
+	return StringWithValue("OK"), nil
 }
 
 func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 412f72c09042ed98bb435efe4f85f26992f8a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:36 +0000
Subject: [PATCH 09/57] fix: modulo by zero panics

---
 prim_math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim_math.go b/prim_math.go
index 9438e10..72fb38a 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -295,6 +295,11 @@ func RemainderImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if IntegerValue(divisor) == 0 {
+		err = ProcessError(fmt.Sprintf("Modulo: %s -> Divide by zero.", String(args)), env)
+		return
+	}
+
 	val := IntegerValue(dividend) % IntegerValue(divisor)
 	return IntegerWithValue(val), nil
 }
-- 
2.43.0


From 4b07ae4e1ff0f54ef0c03c08cd10bf95776f8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:41 +0000
Subject: [PATCH 10/57] fix: take and drop of a bytearray panic for a negative
 count

---
 prim_list_access.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..df66e74 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -283,6 +283,9 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		result = ArrayToList(items)
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
+		if size < 0 {
+			size = 0
+		}
 		var bytesToCopy []byte
 		if size >= len(*dataBytes) {
 			bytesToCopy = *dataBytes
@@ -317,6 +320,9 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		result = cell
 	} else if ObjectP(l) && ObjectType(l) == "[]byte" {
 		dataBytes := (*[]byte)(ObjectValue(l))
+		if size < 0 {
+			size = 0
+		}
 		if size >= len(*dataBytes) {
 			newBytes := make([]byte, 0)
 			result = ObjectWithTypeAndValue("[]byte", unsafe.Pointer(&newBytes))
-- 
2.43.0


From 881b8963aa2c3c58a73d7a4815765314af714707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:48 +0000
Subject: [PATCH 11/57] fix: substring panics for a negative start

---
 prim_string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_string.go b/prim_string.go
index 0e9fd84..2f21814 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -245,6 +245,10 @@ func SubstringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 	startValue := int(IntegerValue(startObj))
+	if startValue < 0 {
+		err = ProcessError(fmt.Sprintf("substring requires start >= 0."), env)
+		return
+	}
 	if startValue > len(stringValue) {
 		err = ProcessError(fmt.Sprintf("substring requires start < length of the string."), env)
 		return
-- 
2.43.0


From 8799345a03b02d3c25c751f9f7541bb0b83b311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:54 +0000
Subject: [PATCH 12/57] fix: string-capitalize panics for an empty string and
 garbles a multi-byte first character

---
 prim_string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prim_string.go b/prim_string.go
index 2f21814..e0a7360 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -10,6 +10,7 @@ package golisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -183,8 +184,9 @@ func StringDowncaseBangImpl(args *Data, env *SymbolTableFrame) (result *Data, er
 }
 
 func capitalize(s string) string {
-	firstChar := s[0:1]
-	remainingChars := s[1:]
+	_, size := utf8.DecodeRuneInString(s)
+	firstChar := s[0:size]
+	remainingChars := s[size:]
 	parts := make([]string, 0, 2)
 	parts = append(parts, strings.ToUpper(firstChar))
 	parts = append(parts, strings.ToLower(remainingChars))
-- 
2.43.0


From 8b603df5981d6bccc4da334da7302446a001339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:00 +0000
Subject: [PATCH 13/57] fix: set-car!, set-cdr! and set-nth! ignore errors in
 their first argument and panic if it is no list

---
 list_access.go   |  4 ++--
 prim_mutators.go | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/list_access.go b/list_access.go
index e38ba14..2c8c169 100644
--- a/list_access.go
+++ b/list_access.go
@@ -138,8 +138,8 @@ func Tenth(d *Data) *Data {
 func SetNth(list *Data, index int, value *Data) *Data {
 	for i := index; i > 1; list, i = Cdr(list), i-1 {
 	}
-	if !NilP(list) {
-		ConsValue(list).Car = value
+	if cell := ConsValue(list); cell != nil && !NilP(list) {
+		cell.Car = value
 	}
 
 	return value
diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..7677fa3 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -30,26 +30,34 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
-		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+	if err != nil {
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
 	}
+	if ConsValue(pair) == nil {
+		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
+	}
 	ConsValue(pair).Car = value
 	return value, nil
 }
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
-		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+	if err != nil {
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
 		return
 	}
+	if ConsValue(pair) == nil {
+		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
+	}
 	ConsValue(pair).Cdr = value
 
 	return value, nil
@@ -57,8 +65,12 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
+	if err != nil {
+		return
+	}
 	if !ListP(l) {
 		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
-- 
2.43.0


From 329ab41e26830cb0d7f61eba4cea56f382322c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:46 +0000
Subject: [PATCH 14/57] fix: format panics for an incomplete directive and
 keeps @ for the directives after it

---
 prim_io.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index b2c919b..ea0a333 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -227,9 +227,14 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			parts = append(parts, controlString[start:i])
 			i++
 			start = i
-			for unicode.IsDigit(rune(controlString[i])) {
+			atModifier = false
+			for i < len(controlString) && unicode.IsDigit(rune(controlString[i])) {
 				i++
 			}
+			if i >= len(controlString) {
+				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
+				return
+			}
 			if i == start {
 				if controlString[i] == '#' {
 					numericArg = Length(arguments)
@@ -253,10 +258,14 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if controlString[i] == '@' {
+			if i < len(controlString) && controlString[i] == '@' {
 				atModifier = true
 				i++
 			}
+			if i >= len(controlString) {
+				err = ProcessError("format encountered an incomplete substitution at the end of the control string", env)
+				return
+			}
 			switch controlString[i] {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
-- 
2.43.0


From 9e53b013440552c471f67c2fb74329cce174a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:52 +0000
Subject: [PATCH 15/57] fix: format makes up () for missing arguments

---
 prim_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index ea0a333..b6bb413 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -268,6 +268,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 			switch controlString[i] {
 			case 'A', 'a':
+				if NilP(arguments) {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
@@ -285,6 +289,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				start = i + 1
 
 			case 'S', 's':
+				if NilP(arguments) {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = String(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
-- 
2.43.0


From 297e5e538dae928ee744d61c23e10310a632dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:48 +0000
Subject: [PATCH 16/57] fix: equality ignores the tail of a dotted list

---
 data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data.go b/data.go
index f883d65..3b6a3c7 100644
--- a/data.go
+++ b/data.go
@@ -862,6 +862,9 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 		for a1, a2 := d, o; NotNilP(a1); a1, a2 = Cdr(a1), Cdr(a2) {
+			if !ListP(a1) || !ListP(a2) { // the end of a dotted list
+				return IsEqual(a1, a2)
+			}
 			if !IsEqual(Car(a1), Car(a2)) {
 				return false
 			}
-- 
2.43.0


From 83ab510f6853427364de9984e46949cd35ca054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:54 +0000
Subject: [PATCH 17/57] fix: frames with different slots are equal if the
 values are ()

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 3b6a3c7..399a398 100644
--- a/data.go
+++ b/data.go
@@ -890,7 +890,8 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 		for k, v := range frameD.Data {
-			if !IsEqual(v, frameO.Data[k]) {
+			other, found := frameO.Data[k]
+			if !found || !IsEqual(v, other) {
 				frameO.Mutex.RUnlock()
 				frameD.Mutex.RUnlock()
 				return false
-- 
2.43.0


From 683cf7e2d7658ebeeefc059dce7962b88d8ce91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:59 +0000
Subject: [PATCH 18/57] fix: comparing a list with an alist depends on the
 order

---
 data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/data.go b/data.go
index 399a398..e63a55a 100644
--- a/data.go
+++ b/data.go
@@ -828,6 +828,10 @@ func IsEqual(d *Data, o *Data) bool {
 		return false
 	}
 
+	if (AlistP(o) && !AlistP(d)) || (DottedPairP(o) && !DottedPairP(d)) {
+		d, o = o, d // the comparison must not depend on the order
+	}
+
 	if AlistP(d) {
 		if !AlistP(o) && !ListP(o) {
 			return false
-- 
2.43.0


From 0c96047523f0bae73e6a0a5d1aa495f48fdec1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:25 +0000
Subject: [PATCH 19/57] fix: a copy shares its strings with the original

---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index e63a55a..32de8dc 100644
--- a/data.go
+++ b/data.go
@@ -802,6 +802,8 @@ func Copy(d *Data) *Data {
 			frame.Mutex.RUnlock()
 			return FrameWithValue(&m)
 		}
+	case StringType:
+		return StringWithValue(StringValue(d))
 	case BoxedObjectType:
 		{
 			if ObjectType(d) == "[]byte" {
-- 
2.43.0


From 1d0f5d9a0406416171e26653d887cc026cc941cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:30 +0000
Subject: [PATCH 20/57] fix: copying an alist reverses it, and a copied pair is
 the original one

---
 data.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/data.go b/data.go
index 32de8dc..940c771 100644
--- a/data.go
+++ b/data.go
@@ -776,11 +776,17 @@ func Copy(d *Data) *Data {
 	switch d.Type {
 	case AlistType:
 		{
-			alist := Acons(Copy(Caar(d)), Copy(Cdar(d)), nil)
-			for c := Cdr(d); NotNilP(c); c = Cdr(c) {
-				alist = Acons(Copy(Caar(c)), Copy(Cdar(c)), alist)
+			if NilP(d) {
+				return d
 			}
-			return alist
+
+			cell := ConsCell{Car: Copy(Car(d)), Cdr: Copy(Cdr(d))}
+			return &Data{Type: AlistType, Value: unsafe.Pointer(&cell)}
+		}
+	case AlistCellType:
+		{
+			cell := ConsCell{Car: Copy(Car(d)), Cdr: Copy(Cdr(d))}
+			return &Data{Type: AlistCellType, Value: unsafe.Pointer(&cell)}
 		}
 	case ConsCellType:
 		{
-- 
2.43.0


From 30840558d07a50881715697f87401dfeedd7810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:59 +0000
Subject: [PATCH 21/57] fix: <, >, <= and >= confuse big integers

---
 prim_relative_logical.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prim_relative_logical.go b/prim_relative_logical.go
index 9075e56..7bc37fc 100644
--- a/prim_relative_logical.go
+++ b/prim_relative_logical.go
@@ -41,6 +41,10 @@ func LessThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) { // not every integer is exact as a float
+		return BooleanWithValue(IntegerValue(arg1) < IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) < FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -58,6 +62,10 @@ func GreaterThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) { // not every integer is exact as a float
+		return BooleanWithValue(IntegerValue(arg1) > IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) > FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -87,6 +95,10 @@ func LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) { // not every integer is exact as a float
+		return BooleanWithValue(IntegerValue(arg1) <= IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) <= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -104,6 +116,10 @@ func GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) { // not every integer is exact as a float
+		return BooleanWithValue(IntegerValue(arg1) >= IntegerValue(arg2)), nil
+	}
+
 	val := FloatValue(arg1) >= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
-- 
2.43.0


From 3aeffa6922e93602ed8412617c25141788cf0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:26 +0000
Subject: [PATCH 22/57] fix: abs is wrong for big integers

---
 prim_math.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 72fb38a..69a1ddb 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -602,8 +602,12 @@ func AbsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 	absval := math.Abs(float64(FloatValue(val)))
-	if IntegerP(val) {
-		result = IntegerWithValue(int64(absval))
+	if IntegerP(val) { // not every integer is exact as a float
+		n := IntegerValue(val)
+		if n < 0 {
+			n = -n
+		}
+		result = IntegerWithValue(n)
 	} else {
 		result = FloatWithValue(float32(absval))
 	}
-- 
2.43.0


From f8d18ada04c3d57dd710d00269160a67b19218e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:31 +0000
Subject: [PATCH 23/57] fix: arithmetic takes anything after the first float
 for a number

---
 prim_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 69a1ddb..8850087 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -168,10 +168,10 @@ func anyFloats(args *Data, env *SymbolTableFrame) (result bool, err error) {
 			return
 		}
 		if FloatP(Car(c)) {
-			return true, nil
+			result = true
 		}
 	}
-	return false, nil
+	return
 }
 
 func AddImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 42420a9995ffc9c285d2c20895cf63bd503cf6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:37 +0000
Subject: [PATCH 24/57] fix: an interval that ends next to the limit of
 integers never ends

---
 prim_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 8850087..31d7a69 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -349,11 +349,11 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var items []*Data = make([]*Data, 0, int(math.Abs(float64(end-start)))+1)
 
 	if direction == 1 {
-		for i := start; i <= end; i = i + step {
+		for i := start; i <= end && i >= start; i = i + step {
 			items = append(items, IntegerWithValue(i))
 		}
 	} else {
-		for i := start; i >= end; i = i + step {
+		for i := start; i >= end && i <= start; i = i + step {
 			items = append(items, IntegerWithValue(i))
 		}
 	}
-- 
2.43.0


From 261ca89c039016e84b355d5b25648752a14129fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:39 +0000
Subject: [PATCH 25/57] fix: apply of a primitive makes up a () argument

---
 data.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/data.go b/data.go
index 940c771..607f094 100644
--- a/data.go
+++ b/data.go
@@ -728,12 +728,8 @@ func QuoteIt(value *Data) (result *Data) {
 
 func QuoteAll(d *Data) (result *Data) {
 	var l []*Data = make([]*Data, 0, 10)
-	if d == nil {
-		l = append(l, QuoteIt(nil))
-	} else {
-		for c := d; c != nil; c = Cdr(c) {
-			l = append(l, QuoteIt(Car(c)))
-		}
+	for c := d; NotNilP(c); c = Cdr(c) {
+		l = append(l, QuoteIt(Car(c)))
 	}
 	return ArrayToList(l)
 }
-- 
2.43.0


From 77b72f1759b0d94ad3e550ff4b37adfac040c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:45 +0000
Subject: [PATCH 26/57] fix: flatten and quasiquote add or lose () at the end
 of a list

---
 data.go        | 6 ++++++
 prim_macros.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/data.go b/data.go
index 607f094..27ebb09 100644
--- a/data.go
+++ b/data.go
@@ -681,6 +681,9 @@ func Flatten(d *Data) (result *Data, err error) {
 		if ListP(Car(c)) {
 			for i := Car(c); i != nil; i = Cdr(i) {
 				l = append(l, Car(i))
+				if NilP(Cdr(i)) {
+					break
+				}
 			}
 		} else {
 			l = append(l, Car(c))
@@ -709,6 +712,9 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 			}
 			for i := elem; i != nil; i = Cdr(i) {
 				l = append(l, Car(i))
+				if NilP(Cdr(i)) {
+					break
+				}
 			}
 		} else {
 			l = append(l, Car(c))
diff --git a/prim_macros.go b/prim_macros.go
index 3da49b1..69e6507 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -46,6 +46,9 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 			if err != nil {
 				return nil, err
 			}
+			if r == nil {
+				r = EmptyCons()
+			}
 			return Cons(r, nil), nil
 		} else {
 			processed, err := processQuasiquoted(Cadr(sexpr), level-1, env)
-- 
2.43.0


From 6530f21ed349ab492d2c43750e01342178059cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:02 +0000
Subject: [PATCH 27/57] fix: a function with nothing but a rest parameter never
 binds it

---
 function.go | 3 +++
 macro.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/function.go b/function.go
index 087bc58..21a9726 100644
--- a/function.go
+++ b/function.go
@@ -62,6 +62,9 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 	var argValue *Data
 	var accumulatingParam *Data = nil
 	accumulatedArgs := make([]*Data, 0)
+	if SymbolP(self.Params) { // nothing but a rest parameter
+		accumulatingParam = self.Params
+	}
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
 			argValue, err = Eval(Car(a), argEnv)
diff --git a/macro.go b/macro.go
index c8f7f9c..34dc065 100644
--- a/macro.go
+++ b/macro.go
@@ -44,6 +44,9 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 	var argValue *Data
 	var accumulatingParam *Data = nil
 	accumulatedArgs := make([]*Data, 0)
+	if SymbolP(self.Params) { // nothing but a rest parameter
+		accumulatingParam = self.Params
+	}
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
 			argValue, err = Eval(Car(a), argEnv)
-- 
2.43.0


From acd99938f82a1e5ddadec2d40bfa15806cc5d683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:08 +0000
Subject: [PATCH 28/57] fix: an error in a step of do is lost

---
 prim_special_forms.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..ecd0ecf 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,7 +437,7 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
+		if err = rebindDoLocals(bindings, localEnv); err != nil {
 			return
 		}
 	}
-- 
2.43.0


From cc97b5c519101212b9177bf3c17da070753558c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:22 +0000
Subject: [PATCH 29/57] fix: apply without arguments panics

---
 prim_special_forms.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index ecd0ecf..a5d6ca2 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -454,6 +454,10 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 	ary := ToArray(Cdr(args))
 	var argList *Data
+	if len(ary) == 0 {
+		err = ProcessError("The last argument to apply must be a list", env)
+		return
+	}
 	if ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
-- 
2.43.0


From 04e2cfe4eabd36b51c4026390c310eb82466d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:50 +0000
Subject: [PATCH 30/57] fix: append! to something else than a proper list
 overwrites memory

---
 prim_list_manipulation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a2c6aea..c2d6097 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -100,6 +100,13 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	for c := firstList; NotNilP(c); c = Cdr(c) {
+		if !ListP(c) {
+			err = ProcessError("append! requires a proper list as it's first argument.", env)
+			return
+		}
+	}
+
 	if ListP(second) {
 		result = AppendBangList(firstList, second)
 	} else {
-- 
2.43.0


From 2137c2b7962c047cf1b45031c810360aeb58007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:56 +0000
Subject: [PATCH 31/57] fix: set-car! and set-cdr! of () change nil for
 everybody

---
 prim_mutators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_mutators.go b/prim_mutators.go
index 7677fa3..7d18d2e 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -37,7 +37,7 @@ func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if err != nil {
 		return
 	}
-	if ConsValue(pair) == nil {
+	if ConsValue(pair) == nil || NilP(pair) {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
 		return
 	}
@@ -54,7 +54,7 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if err != nil {
 		return
 	}
-	if ConsValue(pair) == nil {
+	if ConsValue(pair) == nil || NilP(pair) {
 		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
 		return
 	}
-- 
2.43.0


From 6ae82d8f9608296166dae2cdc3b446a0bf7f492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 32/57] fix: set-car! and set-nth! of the last element to ()
 can empty the list

---
 prim_mutators.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prim_mutators.go b/prim_mutators.go
index 7d18d2e..4aedb3d 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -41,6 +41,9 @@ func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
 		return
 	}
+	if value == nil { // a cell without anything in it is the empty list
+		value = EmptyCons()
+	}
 	ConsValue(pair).Car = value
 	return value, nil
 }
@@ -81,5 +84,9 @@ func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
+	if value == nil { // a cell without anything in it is the empty list
+		value = EmptyCons()
+	}
+
 	return SetNth(l, int(IntegerValue(index)), value), nil
 }
-- 
2.43.0


From 56dc58c6719465815895061d249132db06d8af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:00 +0000
Subject: [PATCH 33/57] fix: environment-assign! overwrites protected bindings

---
 prim_environment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index 44ce238..036a739 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -7,6 +7,10 @@
 
 package golisp
 
+import (
+	"fmt"
+)
+
 func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment?", "1", EnvironmentPImpl)
 	MakePrimitiveFunction("environment-has-parent?", "1", EnvironmentParentPImpl)
@@ -252,6 +256,10 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
+		if binding.Protected {
+			err = ProcessError(fmt.Sprintf("environment-assign!: %s is a protected binding", StringValue(Cadr(args))), env)
+			return
+		}
 		result = Caddr(args)
 		binding.Val = result
 	}
-- 
2.43.0


From a79f9ce59fb4431681cf90682cedc2e6bac67d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:46 +0000
Subject: [PATCH 34/57] fix: mismatched closing brackets are read as symbols,
 {] as {}, and a list cut off after its dot as ()

---
 parser.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 174d45d..8c1d5b3 100644
--- a/parser.go
+++ b/parser.go
@@ -77,6 +77,9 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if tok == PERIOD {
 			s.ConsumeToken()
 			cdr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected closing parenthesis)")
+			}
 			if eof || err != nil {
 				return
 			}
@@ -88,6 +91,9 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 			s.ConsumeToken()
 			sexpr = ArrayToListWithTail(cells, cdr)
 			return
+		} else if tok == RBRACKET || tok == RBRACE {
+			err = errors.New("Expected ')'")
+			return
 		} else {
 			car, eof, err = parseExpression(s)
 			if eof {
@@ -137,6 +143,10 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	var element *Data
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACKET {
+		if tok == RPAREN || tok == RBRACE {
+			err = errors.New("Expected ']'")
+			return
+		}
 		element, eof, err = parseExpression(s)
 		if eof {
 			err = errors.New("Unexpected EOF (expected closing bracket)")
@@ -168,17 +178,14 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 
 func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	tok, _ := s.NextToken()
-	if tok == RBRACKET {
-		s.ConsumeToken()
-		f := FrameMap{}
-		f.Data = make(FrameMapData)
-		sexpr = FrameWithValue(&f)
-		return
-	}
 
 	var element *Data
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACE {
+		if tok == RPAREN || tok == RBRACKET {
+			err = errors.New("Expected '}'")
+			return
+		}
 		element, eof, err = parseExpression(s)
 		if eof {
 			err = errors.New("Unexpected EOF (expected closing brace)")
-- 
2.43.0


From 39b9e84b3843f48ae4eab67bfa4ce10062959444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:53 +0000
Subject: [PATCH 35/57] fix: negative numbers in a bytearray literal are taken
 modulo 256

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8c1d5b3..1744999 100644
--- a/parser.go
+++ b/parser.go
@@ -155,7 +155,7 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if err != nil {
 			return
 		}
-		if IntegerP(element) && IntegerValue(element) > 255 {
+		if IntegerP(element) && (IntegerValue(element) < 0 || IntegerValue(element) > 255) {
 			err = errors.New(fmt.Sprintf("Numeric literals in a bytearray must be bytes. Encountered %s.", String(element)))
 			return
 		}
-- 
2.43.0


From 99dbab42a1a73c886e2189a92e2e3c3c95fb5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 36/57] fix: loading stops without an error at ()

---
 parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser.go b/parser.go
index 1744999..69895d6 100644
--- a/parser.go
+++ b/parser.go
@@ -360,9 +360,6 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 		if eof {
 			return
 		}
-		if NilP(sexpr) {
-			return
-		}
 		result, err = Eval(sexpr, env)
 		if err != nil {
 			return
-- 
2.43.0


From ee72d45dee61d70e64a8ed1080322c78dc7726ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:29 +0000
Subject: [PATCH 37/57] fix: floats are printed with exponents that can not be
 read back

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 27ebb09..98ec7a2 100644
--- a/data.go
+++ b/data.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"os"
 	"sort"
+	"strconv"
 	"strings"
 	"sync/atomic"
 	"unsafe"
@@ -1026,7 +1027,7 @@ func String(d *Data) string {
 			if math.IsNaN(float64(v)) {
 				return "nan"
 			}
-			raw := fmt.Sprintf("%g", FloatValue(d))
+			raw := strconv.FormatFloat(float64(FloatValue(d)), 'f', -1, 32) // the reader knows no exponents
 			if strings.ContainsRune(raw, '.') {
 				return raw
 			}
-- 
2.43.0


From 4ae8c92b168c4a498ae53cf2d3e640671130217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:35 +0000
Subject: [PATCH 38/57] fix: backslashes in strings are printed so that they
 can not be read back

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 98ec7a2..80ea7e6 100644
--- a/data.go
+++ b/data.go
@@ -959,7 +959,7 @@ func IsEqual(d *Data, o *Data) bool {
 func escapeQuotes(str string) string {
 	buffer := make([]rune, 0, 10)
 	for _, ch := range str {
-		if rune(ch) == '"' {
+		if rune(ch) == '"' || rune(ch) == '\\' {
 			buffer = append(buffer, '\\')
 		}
 		buffer = append(buffer, rune(ch))
-- 
2.43.0


From 65b8ca8dc672ce7f5e02906d5abc9b50328ec7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:00 +0000
Subject: [PATCH 39/57] fix: lists that begin with quote are printed without
 all after the second element

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 80ea7e6..94d55f5 100644
--- a/data.go
+++ b/data.go
@@ -986,7 +986,7 @@ func String(d *Data) string {
 				c = Cdr(c)
 			}
 			if NilP(c) {
-				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
+				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" && len(contents) <= 2 {
 					if len(contents) == 1 {
 						return fmt.Sprintf("'()")
 					} else {
-- 
2.43.0


From 6422f365efdcad576e620efefdb0bafcde3fb136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:32 +0000
Subject: [PATCH 40/57] fix: json->lisp of null panics

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index f368677..fff1c78 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -193,7 +193,7 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 		m.Data = make(FrameMapData, 0)
 		return FrameWithValue(&m)
 	}
-	return jsonToLispWithFramesReflect(reflect.ValueOf(data))
+	return JsonToLispWithFrames(data)
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
-- 
2.43.0


From 0fe27ca668d1c51eab4a5a4b06973b008003b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:38 +0000
Subject: [PATCH 41/57] fix: json->lisp loses null at the end of an array

---
 json_frame_support.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_frame_support.go b/json_frame_support.go
index fff1c78..fcf1473 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -149,6 +149,9 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 			for i := 0; i < rv.Len(); i++ {
 				val := rv.Index(i)
 				value := jsonToLispWithFramesReflect(val)
+				if value == nil {
+					value = EmptyCons()
+				}
 				ary = Cons(value, ary)
 			}
 			return Reverse(ary)
-- 
2.43.0


From 960f51260ca645d75ae928bf9ad0535a0699797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:44 +0000
Subject: [PATCH 42/57] fix: lisp->json takes more than one colon off a slot
 name

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index fcf1473..7ae2151 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -242,7 +242,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 		frame.Mutex.RLock()
 		for k, v := range frame.Data {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
 		frame.Mutex.RUnlock()
-- 
2.43.0


From 2bbd9039e7bc3655e0f5fe0d58641f2085536c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:50 +0000
Subject: [PATCH 43/57] fix: null in an object becomes an empty string on its
 way through lisp

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 7ae2151..91e7f5f 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -201,7 +201,7 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
 	if d == nil {
-		return ""
+		return nil
 	}
 
 	if IntegerP(d) {
-- 
2.43.0


From 309752597cbf4903918dd6139d9ca8582eab3488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:56 +0000
Subject: [PATCH 44/57] fix: json->lisp is wrong for big integers

---
 json_frame_support.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 91e7f5f..20fda21 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -9,7 +9,9 @@ package golisp
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"math"
 	"reflect"
 	"strings"
@@ -129,6 +131,14 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 		rtKind = rt.Kind()
 	}
 
+	if number, ok := rv.Interface().(json.Number); ok {
+		if i, err := number.Int64(); err == nil {
+			return IntegerWithValue(i)
+		}
+		f, _ := number.Float64()
+		return jsonToLispWithFramesReflect(reflect.ValueOf(f))
+	}
+
 	switch rtKind {
 	case reflect.Map:
 		if reflect.Type.Key(rt).Kind() == reflect.String {
@@ -187,9 +197,15 @@ func JsonToLispWithFrames(data interface{}) *Data {
 }
 
 func JsonStringToLispWithFrames(jsonData string) (result *Data) {
-	b := []byte(jsonData)
+	decoder := json.NewDecoder(strings.NewReader(jsonData))
+	decoder.UseNumber() // not every integer is exact as a float
 	var data interface{}
-	err := json.Unmarshal(b, &data)
+	err := decoder.Decode(&data)
+	if err == nil {
+		if _, tokenErr := decoder.Token(); tokenErr != io.EOF {
+			err = errors.New("unexpected data after the value")
+		}
+	}
 	if err != nil {
 		fmt.Printf("Returning empty frame because of badly formed json: '%s'\n --> %v\n", jsonData, err)
 		m := FrameMap{}
-- 
2.43.0


From 33fb0a1490657fe640d744992ce999007d0123ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 45/57] fix: extract-bytes overlooks that far too many bytes
 are asked for

---
 json_frame_support.go | 8 ++++++--
 prim_bytearray.go     | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 20fda21..bb95351 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -131,11 +131,15 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 		rtKind = rt.Kind()
 	}
 
-	if number, ok := rv.Interface().(json.Number); ok {
+	if rt == reflect.TypeOf(json.Number("")) {
+		number := json.Number(rv.String())
 		if i, err := number.Int64(); err == nil {
 			return IntegerWithValue(i)
 		}
-		f, _ := number.Float64()
+		f, err := number.Float64()
+		if err != nil { // out of range
+			return FloatWithValue(float32(f))
+		}
 		return jsonToLispWithFramesReflect(reflect.ValueOf(f))
 	}
 
diff --git a/prim_bytearray.go b/prim_bytearray.go
index f0f3bad..5ce8f03 100644
--- a/prim_bytearray.go
+++ b/prim_bytearray.go
@@ -262,7 +262,7 @@ func ExtractBytesImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 		err = ProcessError("Number to extract can not be negative.", env)
 		return
 	}
-	if index+numToExtract > len(*dataBytes) {
+	if numToExtract > len(*dataBytes)-index {
 		err = ProcessError(fmt.Sprintf("extract-bytes final index was out of range.  Was %d but bytearray has length of %d.", index+numToExtract-1, len(*dataBytes)), env)
 		return
 	}
-- 
2.43.0


From 313156624a7d7c12ddc5d05d5e4e86911cff42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:39 +0000
Subject: [PATCH 46/57] fix: general-car-cdr never ends for a negative path

---
 prim_list_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_list_access.go b/prim_list_access.go
index df66e74..725cbfd 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -196,7 +196,7 @@ func CddddrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	list := Car(args)
 	path := IntegerValue(Cadr(args))
-	if path == 0 {
+	if path <= 0 {
 		err = errors.New("general-car-cdr requires a non-zero path specifier")
 		return
 	}
-- 
2.43.0


From bb2f667ce1c94a378ac26dbd677f4a59fa6d5dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:05 +0000
Subject: [PATCH 47/57] fix: procedure-environment gives restricted code an
 unrestricted environment

---
 prim_environment.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index 036a739..08622e0 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -379,6 +379,11 @@ func ProcedureEnvironmentImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 
+	if env.IsRestricted && !FunctionValue(Car(args)).Env.IsRestricted {
+		err = ProcessError("procedure-environment can not give out an unrestricted environment here", env)
+		return
+	}
+
 	return EnvironmentWithValue(FunctionValue(Car(args)).Env), nil
 }
 
-- 
2.43.0


From 07457c39887d8d2dea427fadf121e3843072f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:29 +0000
Subject: [PATCH 48/57] fix: reading from two ports in turn loses what was read
 ahead

---
 prim_io.go   |  1 +
 tokenizer.go | 28 +++++++++++++++++++---------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index b6bb413..eae40af 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -74,6 +74,7 @@ func ClosePortImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	}
 
 	(*os.File)(PortValue(p)).Close()
+	forgetTokenizerOfFile(PortValue(p))
 	return
 
 }
diff --git a/tokenizer.go b/tokenizer.go
index 0b3cf9f..e4d3ab4 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"sync"
 	"unicode"
 )
 
@@ -51,8 +52,9 @@ type Tokenizer struct {
 	AlmostEof      bool
 }
 
-var mostRecentFileTokenizer *Tokenizer
-var mostRecentlyUsedFile *os.File
+// every open file has its own tokenizer, which may have read ahead
+var fileTokenizers = make(map[*os.File]*Tokenizer)
+var fileTokenizersMutex sync.Mutex
 
 func NewTokenizer(scanner *bufrr.Reader) *Tokenizer {
 	t := &Tokenizer{Source: scanner}
@@ -66,14 +68,22 @@ func NewTokenizerFromString(src string) *Tokenizer {
 }
 
 func NewTokenizerFromFile(src *os.File) *Tokenizer {
-	if mostRecentlyUsedFile == src {
-		return mostRecentFileTokenizer
-	} else {
-		t := NewTokenizer(bufrr.NewReader(src))
-		mostRecentFileTokenizer = t
-		mostRecentlyUsedFile = src
-		return t
+	fileTokenizersMutex.Lock()
+	t, found := fileTokenizers[src]
+	fileTokenizersMutex.Unlock()
+	if !found {
+		t = NewTokenizer(bufrr.NewReader(src))
+		fileTokenizersMutex.Lock()
+		fileTokenizers[src] = t
+		fileTokenizersMutex.Unlock()
 	}
+	return t
+}
+
+func forgetTokenizerOfFile(src *os.File) {
+	fileTokenizersMutex.Lock()
+	delete(fileTokenizers, src)
+	fileTokenizersMutex.Unlock()
 }
 
 func (self *Tokenizer) Advance() {
-- 
2.43.0


From 1c22c992faf1b79fce6df64ff9b86283d315e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 49/57] fix: -> and => pass an empty list value on as an
 argument

---
 prim_special_forms.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index a5d6ca2..49023fd 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -481,6 +481,9 @@ func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	for cell := Cdr(args); NotNilP(cell); cell = Cdr(cell) {
+		if value == nil {
+			value = EmptyCons()
+		}
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
@@ -507,6 +510,9 @@ func TapImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	result = value
 
 	for cell := Cdr(args); NotNilP(cell); cell = Cdr(cell) {
+		if value == nil {
+			value = EmptyCons()
+		}
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-- 
2.43.0


From fe0f2f8d20ac482211ebee100381c3f1eb4872d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:22 +0000
Subject: [PATCH 50/57] fix: find and find-tail pass on the error of their
 predicate

---
 prim_list_functions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..cdb957a 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,7 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
-
+		if err != nil {
+			return nil, err
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
 			return
@@ -463,6 +465,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return nil, err
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
-- 
2.43.0


From ca8b96f90285fe730ea22f98f48c29d5fc435c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 51/57] fix: set-nth! ends at the end of the list, however
 large the index

---
 list_access.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_access.go b/list_access.go
index 2c8c169..f962148 100644
--- a/list_access.go
+++ b/list_access.go
@@ -136,7 +136,7 @@ func Tenth(d *Data) *Data {
 }
 
 func SetNth(list *Data, index int, value *Data) *Data {
-	for i := index; i > 1; list, i = Cdr(list), i-1 {
+	for i := index; i > 1 && NotNilP(list); list, i = Cdr(list), i-1 {
 	}
 	if cell := ConsValue(list); cell != nil && !NilP(list) {
 		cell.Car = value
-- 
2.43.0


From 6aa3ed4b86fdeac5688dc38644186fb50f22d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:12 +0000
Subject: [PATCH 52/57] fix: omitempty is decided by the lisp value instead of
 the Go value

---
 json_frame_support.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index bb95351..0c6a2df 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -17,20 +17,15 @@ import (
 	"strings"
 )
 
-func jsonIsEmptyValue(data *Data) bool {
-	switch {
-	case NilP(data):
-		return true
-	case StringP(data):
-		return len(StringValue(data)) == 0
-	case IntegerP(data):
-		return IntegerValue(data) == 0
-	case FloatP(data):
-		return FloatValue(data) == 0.0
-	case BooleanP(data):
-		return !BooleanValue(data)
+// the values encoding/json omits when asked to omit empty ones
+func jsonIsEmptyValue(rv reflect.Value) bool {
+	switch rv.Kind() {
+	case reflect.Struct:
+		return false
+	case reflect.Array, reflect.Map, reflect.Slice:
+		return rv.Len() == 0
 	}
-	return false
+	return rv.IsZero()
 }
 
 // adapted from golang's encoding/json
@@ -91,7 +86,7 @@ func jsonToLispWithFramesStruct(rv reflect.Value) *Data {
 			fv := rv.Field(i)
 			data := jsonToLispWithFramesReflect(fv)
 
-			if !omitEmpty || !jsonIsEmptyValue(data) {
+			if !omitEmpty || !jsonIsEmptyValue(fv) {
 				if encodeString {
 					switch {
 					case StringP(data):
-- 
2.43.0


From 70683666696af933440b927429d78bbc9c4d7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 53/57] fix: sort mixes up the equal elements of longer lists

---
 prim_list_manipulation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index c2d6097..d5c8a4b 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -293,7 +293,7 @@ func SortImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 	arr := ToArray(coll)
 
-	sort.Slice(arr, func(i, j int) bool {
+	sort.SliceStable(arr, func(i, j int) bool {
 		var ret bool
 		if err == nil {
 			a := arr[i]
-- 
2.43.0


From 5d206efbfa6fb78ddd2708ec8ff1a079400b9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:16 +0000
Subject: [PATCH 54/57] fix: operations that read several frames deadlock with
 writers waiting for them

---
 frame.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index 7c904ad..6075a79 100644
--- a/frame.go
+++ b/frame.go
@@ -18,7 +18,43 @@ type FrameMapData map[string]*Data
 
 type FrameMap struct {
 	Data  FrameMapData
-	Mutex sync.RWMutex
+	Mutex FrameMutex
+}
+
+// FrameMutex is a readers/writer lock that lets readers in while a writer is waiting. Operations
+// on several frames (inherited lookups, comparisons, printing) keep one frame read-locked while
+// they lock another, or the same one again. With a sync.RWMutex, which makes readers wait for a
+// waiting writer, they could end up waiting for each other.
+type FrameMutex struct {
+	readersMutex sync.Mutex
+	readers      int
+	writerMutex  sync.Mutex // held by the writer, or by the readers as a group
+}
+
+func (self *FrameMutex) Lock() {
+	self.writerMutex.Lock()
+}
+
+func (self *FrameMutex) Unlock() {
+	self.writerMutex.Unlock()
+}
+
+func (self *FrameMutex) RLock() {
+	self.readersMutex.Lock()
+	self.readers++
+	if self.readers == 1 {
+		self.writerMutex.Lock()
+	}
+	self.readersMutex.Unlock()
+}
+
+func (self *FrameMutex) RUnlock() {
+	self.readersMutex.Lock()
+	self.readers--
+	if self.readers == 0 {
+		self.writerMutex.Unlock()
+	}
+	self.readersMutex.Unlock()
 }
 
 func (self *FrameMap) hasSlotLocally(key string) bool {
-- 
2.43.0


From d3dbdea50a9428f1f10cea000fd556bafc070689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 55/57] fix: profile records with a % in the name are garbled

---
 profiling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling.go b/profiling.go
index 52eced5..ddb9540 100644
--- a/profiling.go
+++ b/profiling.go
@@ -42,9 +42,9 @@ func ProfileEnter(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
@@ -53,9 +53,9 @@ func ProfileExit(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
-- 
2.43.0


From d59603bd33725f0155a48c63a67dac82f4b4a312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:39 +0000
Subject: [PATCH 56/57] fix: profile panics when its file cannot be opened

---
 prim_system.go | 9 +++++++--
 profiling.go   | 7 ++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/prim_system.go b/prim_system.go
index 83daedf..ff4c57e 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,10 +255,15 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
 		}
-		StartProfiling(StringValue(Cadr(args)))
+		err = StartProfiling(StringValue(Cadr(args)))
 	} else {
-		StartProfiling("")
+		err = StartProfiling("")
+	}
+	if err != nil {
+		err = ProcessError(err.Error(), env)
+		return
 	}
 
 	result, err = Eval(Car(args), env)
diff --git a/profiling.go b/profiling.go
index ddb9540..cd088c6 100644
--- a/profiling.go
+++ b/profiling.go
@@ -17,18 +17,19 @@ var profileOutput *os.File = nil
 var ProfileEnabled = false
 var ProfileGUID int64 = 0
 
-func StartProfiling(fname string) {
+func StartProfiling(fname string) (err error) {
 	ProfileGUID = 0
 	if fname == "" {
 		profileOutput = nil
 	} else {
-		var err error
 		profileOutput, err = os.Create(fname)
 		if err != nil {
-			panic(fmt.Sprintf("Profiler: %s could not be opened.", fname))
+			profileOutput = nil
+			return fmt.Errorf("Profiler: %s could not be opened.", fname)
 		}
 	}
 	ProfileEnabled = true
+	return
 }
 
 func EndProfiling() {
-- 
2.43.0


From 342da169b3981725f9a8c40b0b77fc4132af4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 57/57] fix: quasiquote loses the tails of dotted lists

---
 prim_macros.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/prim_macros.go b/prim_macros.go
index 69e6507..1324f0b 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -81,8 +81,18 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		}
 	} else {
 		parts := make([]*Data, 0, Length(Cdr(sexpr)))
-		for _, exp := range ToArray(sexpr) {
-			processed, err := processQuasiquoted(exp, level, env)
+		var tail *Data
+		for c := sexpr; NotNilP(c); c = Cdr(c) {
+			// (a . b), and (a . ,b), which is read as (a unquote b)
+			if !ListP(c) || (c != sexpr && Length(c) == 2 && SymbolP(Car(c)) && StringValue(Car(c)) == "unquote") {
+				processed, err := processQuasiquoted(c, level, env)
+				if err != nil {
+					return nil, err
+				}
+				tail = Car(processed)
+				break
+			}
+			processed, err := processQuasiquoted(Car(c), level, env)
 			if err != nil {
 				return nil, err
 			}
@@ -94,6 +104,9 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		if err != nil {
 			return nil, err
 		}
+		if NotNilP(tail) {
+			flat = ArrayToListWithTail(ToArray(flat), tail)
+		}
 		return Cons(flat, nil), nil
 	}
 }
-- 
2.43.0

