From e45c04695d0454b9f7e82d1e608cf346f18a4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:39 +0000
Subject: [PATCH 01/38] fix: appending to or removing from something that is
 not a proper list no longer overwrites memory

---
 data.go                   | 42 ++++++++++++++-------------------------
 prim_list_manipulation.go |  4 ++++
 2 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/data.go b/data.go
index dcfe12f..9e32814 100644
--- a/data.go
+++ b/data.go
@@ -232,13 +232,18 @@ func Cons(car *Data, cdr *Data) *Data {
 	return &Data{Type: ConsCellType, Value: unsafe.Pointer(&cell)}
 }
 
-func AppendBang(l *Data, value *Data) *Data {
-	if NilP(l) {
-		return Cons(value, nil)
+// lastCell finds the last cell of the list l, or nil if l isn't made of cells.
+func lastCell(l *Data) (last *Data) {
+	for c := l; NotNilP(c) && (ListP(c) || DottedPairP(c)); c = Cdr(c) {
+		last = c
 	}
+	return
+}
 
-	var c *Data
-	for c = l; NotNilP(Cdr(c)); c = Cdr(c) {
+func AppendBang(l *Data, value *Data) *Data {
+	c := lastCell(l)
+	if c == nil {
+		return Cons(value, nil)
 	}
 
 	((*ConsCell)(c.Value)).Cdr = Cons(value, nil)
@@ -247,14 +252,11 @@ func AppendBang(l *Data, value *Data) *Data {
 }
 
 func AppendBangList(l *Data, otherList *Data) *Data {
-	if NilP(l) {
+	c := lastCell(l)
+	if c == nil {
 		return otherList
 	}
 
-	var c *Data
-	for c = l; NotNilP(Cdr(c)); c = Cdr(c) {
-	}
-
 	((*ConsCell)(c.Value)).Cdr = otherList
 
 	return l
@@ -265,14 +267,7 @@ func Append(l *Data, value *Data) *Data {
 		return Cons(value, nil)
 	}
 
-	var newList = Copy(l)
-	var c *Data
-	for c = newList; NotNilP(Cdr(c)); c = Cdr(c) {
-	}
-
-	((*ConsCell)(c.Value)).Cdr = Cons(value, nil)
-
-	return newList
+	return AppendBang(Copy(l), value)
 }
 
 func AppendList(l *Data, otherList *Data) *Data {
@@ -280,20 +275,13 @@ func AppendList(l *Data, otherList *Data) *Data {
 		return otherList
 	}
 
-	var newList = Copy(l)
-	var c *Data
-	for c = newList; NotNilP(Cdr(c)); c = Cdr(c) {
-	}
-
-	((*ConsCell)(c.Value)).Cdr = otherList
-
-	return newList
+	return AppendBangList(Copy(l), otherList)
 }
 
 func RemoveFromListBang(l *Data, item *Data) (result *Data) {
 	var prev *Data
 	result = l
-	for cell := l; NotNilP(cell); cell = Cdr(cell) {
+	for cell := l; NotNilP(cell) && (ListP(cell) || DottedPairP(cell)); cell = Cdr(cell) {
 		if IsEqual(item, Car(cell)) {
 			if NilP(prev) {
 				return Cdr(cell)
diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a2c6aea..5d0b42d 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -94,6 +94,10 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	if err != nil {
 		return
 	}
+	if !ListP(firstList) {
+		err = ProcessError("append! requires a list as it's first argument.", env)
+		return
+	}
 
 	second, err := Eval(Cadr(args), env)
 	if err != nil {
-- 
2.43.0


From 93bdb7fee941f233009963feb448f1419da359d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:11 +0000
Subject: [PATCH 02/38] fix: set!, set-car!, set-cdr! and set-nth! report a bad
 argument or a failed evaluation instead of dropping it

---
 list_access.go   |  4 ++--
 prim_mutators.go | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/list_access.go b/list_access.go
index e38ba14..2c8c169 100644
--- a/list_access.go
+++ b/list_access.go
@@ -138,8 +138,8 @@ func Tenth(d *Data) *Data {
 func SetNth(list *Data, index int, value *Data) *Data {
 	for i := index; i > 1; list, i = Cdr(list), i-1 {
 	}
-	if !NilP(list) {
-		ConsValue(list).Car = value
+	if cell := ConsValue(list); cell != nil && !NilP(list) {
+		cell.Car = value
 	}
 
 	return value
diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..9a395b0 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -20,6 +20,7 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	symbol := Car(args)
 	if !SymbolP(symbol) {
 		err = ProcessError("set! requires a raw (unevaluated) symbol as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -30,8 +31,12 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if ConsValue(pair) == nil {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -43,8 +48,12 @@ func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if ConsValue(pair) == nil {
 		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -57,8 +66,12 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
-	if !ListP(l) {
+	if err != nil {
+		return
+	}
+	if !ListP(l) && !DottedPairP(l) {
 		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
-- 
2.43.0


From d534e556828a3f36b4ed0b24c9b6d4d59dce4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:10 +0000
Subject: [PATCH 03/38] fix: do, find and find-tail report an error from a step
 instead of dropping it

---
 prim_list_functions.go | 6 ++++++
 prim_special_forms.go  | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..576304c 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,6 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
@@ -463,6 +466,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..73ca4a0 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,7 +437,8 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
+		err = rebindDoLocals(bindings, localEnv)
+		if err != nil {
 			return
 		}
 	}
-- 
2.43.0


From fbd38474d2f7a190d4121d1dfa53d785b6e859e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:38 +0000
Subject: [PATCH 04/38] fix: profile and exec report bad arguments instead of
 going on or panicking

---
 prim_system.go |  9 +++++++--
 profiling.go   | 10 ++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/prim_system.go b/prim_system.go
index 83daedf..a9d6db8 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,10 +255,14 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
 		}
-		StartProfiling(StringValue(Cadr(args)))
+		err = StartProfiling(StringValue(Cadr(args)))
 	} else {
-		StartProfiling("")
+		err = StartProfiling("")
+	}
+	if err != nil {
+		return
 	}
 
 	result, err = Eval(Car(args), env)
@@ -271,6 +275,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func ExecImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if !StringP(First(args)) {
 		err = ProcessError(fmt.Sprintf("exec requires a string command, but received %s.", String(First(args))), env)
+		return
 	}
 	cmdString := StringValue(First(args))
 
diff --git a/profiling.go b/profiling.go
index 52eced5..f92fbba 100644
--- a/profiling.go
+++ b/profiling.go
@@ -10,6 +10,7 @@ package golisp
 import (
 	"fmt"
 	"os"
+	"sync/atomic"
 	"time"
 )
 
@@ -17,18 +18,19 @@ var profileOutput *os.File = nil
 var ProfileEnabled = false
 var ProfileGUID int64 = 0
 
-func StartProfiling(fname string) {
-	ProfileGUID = 0
+func StartProfiling(fname string) (err error) {
+	atomic.StoreInt64(&ProfileGUID, 0)
 	if fname == "" {
 		profileOutput = nil
 	} else {
-		var err error
 		profileOutput, err = os.Create(fname)
 		if err != nil {
-			panic(fmt.Sprintf("Profiler: %s could not be opened.", fname))
+			profileOutput = nil
+			return fmt.Errorf("Profiler: %s could not be opened.", fname)
 		}
 	}
 	ProfileEnabled = true
+	return
 }
 
 func EndProfiling() {
-- 
2.43.0


From 1f0fb1e01561fdf471f1b79e6cbedf35c9a191ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:25 +0000
Subject: [PATCH 05/38] fix: procedure-environment and profile are not
 available in a restricted environment

---
 prim_environment.go | 2 +-
 prim_system.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..7821ebb 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -23,7 +23,7 @@ func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment-definable?", "2", EnvironmentDefinablePImpl)
 	MakePrimitiveFunction("environment-define", "3", EnvironmentDefineImpl)
 	MakePrimitiveFunction("the-environment", "0", TheEnvironmentImpl)
-	MakePrimitiveFunction("procedure-environment", "1", ProcedureEnvironmentImpl)
+	MakeRestrictedPrimitiveFunction("procedure-environment", "1", ProcedureEnvironmentImpl)
 
 	MakePrimitiveFunction("restrict-environment", "0", RestrictEnvironmentImpl)
 	MakeRestrictedPrimitiveFunction("environment-parent", "1", EnvironmentParentImpl)
diff --git a/prim_system.go b/prim_system.go
index a9d6db8..69031ab 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -39,7 +39,7 @@ func RegisterSystemPrimitives() {
 	MakeSpecialForm("on-error", "2|3", OnErrorImpl)
 
 	MakeSpecialForm("time", "1", TimeImpl)
-	MakeSpecialForm("profile", "1|2", ProfileImpl)
+	MakeRestrictedSpecialForm("profile", "1|2", ProfileImpl)
 
 	MakeRestrictedPrimitiveFunction("exec", ">=1", ExecImpl)
 }
-- 
2.43.0


From d97677c6d40e972dd570e5c5acb119f594784116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:19 +0000
Subject: [PATCH 06/38] fix: frame operations never hold one frame's lock while
 taking another, and a non-frame parent slot is ignored

---
 data.go               | 20 ++++----------------
 frame.go              | 36 ++++++++++--------------------------
 json_frame_support.go |  4 +---
 prim_frame.go         |  2 --
 4 files changed, 15 insertions(+), 47 deletions(-)

diff --git a/data.go b/data.go
index 9e32814..68471ff 100644
--- a/data.go
+++ b/data.go
@@ -782,12 +782,10 @@ func Copy(d *Data) *Data {
 		{
 			m := FrameMap{}
 			m.Data = make(FrameMapData)
-			frame := FrameValue(d)
-			frame.Mutex.RLock()
+			frame := FrameValue(d).Clone()
 			for k, v := range frame.Data {
 				m.Data[k] = Copy(v)
 			}
-			frame.Mutex.RUnlock()
 			return FrameWithValue(&m)
 		}
 	case BoxedObjectType:
@@ -858,24 +856,16 @@ func IsEqual(d *Data, o *Data) bool {
 	}
 
 	if FrameP(d) {
-		frameD := FrameValue(d)
-		frameO := FrameValue(o)
-		frameD.Mutex.RLock()
-		frameO.Mutex.RLock()
+		frameD := FrameValue(d).Clone()
+		frameO := FrameValue(o).Clone()
 		if len(frameD.Data) != len(frameO.Data) {
-			frameO.Mutex.RUnlock()
-			frameD.Mutex.RUnlock()
 			return false
 		}
 		for k, v := range frameD.Data {
 			if !IsEqual(v, frameO.Data[k]) {
-				frameO.Mutex.RUnlock()
-				frameD.Mutex.RUnlock()
 				return false
 			}
 		}
-		frameO.Mutex.RUnlock()
-		frameD.Mutex.RUnlock()
 		return true
 	}
 
@@ -1023,8 +1013,7 @@ func String(d *Data) string {
 			return fmt.Sprintf("<opaque Go object of type %s : 0x%x>", ObjectType(d), (*uint64)(ObjectValue(d)))
 		}
 	case FrameType:
-		frame := FrameValue(d)
-		frame.Mutex.RLock()
+		frame := FrameValue(d).Clone()
 		keys := make([]string, 0, len(frame.Data))
 		for key, _ := range frame.Data {
 			keys = append(keys, key)
@@ -1037,7 +1026,6 @@ func String(d *Data) string {
 			var valString string = String(val)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
-		frame.Mutex.RUnlock()
 		return fmt.Sprintf("{%s}", strings.Join(pairs, " "))
 	case EnvironmentType:
 		return fmt.Sprintf("<environment: %s>", EnvironmentValue(d).Name)
diff --git a/frame.go b/frame.go
index 2430579..eff58c3 100644
--- a/frame.go
+++ b/frame.go
@@ -38,23 +38,15 @@ func isParentKey(key string) bool {
 	return strings.HasSuffix(key, "*:")
 }
 
-func (self *FrameMap) hasParentSlots() bool {
-	for k, _ := range self.Data {
-		if isParentKey(k) {
-			return true
-		}
-	}
-
-	return false
-}
-
 func (self *FrameMap) Parents() []*FrameMap {
 	parents := make([]*FrameMap, 0, 0)
+	self.Mutex.RLock()
 	for k, v := range self.Data {
-		if isParentKey(k) && v != nil {
+		if isParentKey(k) && FrameP(v) {
 			parents = append(parents, FrameValue(v))
 		}
 	}
+	self.Mutex.RUnlock()
 	return parents
 }
 
@@ -67,19 +59,15 @@ func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
 
 	v.Add(self)
 
-	if self.hasSlotLocally(key) {
+	self.Mutex.RLock()
+	hasSlot := self.hasSlotLocally(key)
+	self.Mutex.RUnlock()
+	if hasSlot {
 		return true
 	}
 
-	if !self.hasParentSlots() {
-		return false
-	}
-
 	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		hasSlot := p.hasSlotHelper(key, v)
-		p.Mutex.RUnlock()
-		if hasSlot {
+		if p.hasSlotHelper(key, v) {
 			return true
 		}
 	}
@@ -89,9 +77,7 @@ func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
 
 func (self *FrameMap) HasSlot(key string) (ret bool) {
 	visited := set.New()
-	self.Mutex.RLock()
 	ret = self.hasSlotHelper(key, visited)
-	self.Mutex.RUnlock()
 	return
 }
 
@@ -104,15 +90,15 @@ func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
 
 	v.Add(self)
 
+	self.Mutex.RLock()
 	val, ok := self.Data[key]
+	self.Mutex.RUnlock()
 	if ok {
 		return val
 	}
 
 	for _, p := range self.Parents() {
-		p.Mutex.RLock()
 		val := p.getHelper(key, v)
-		p.Mutex.RUnlock()
 		if val != nil {
 			return val
 		}
@@ -123,9 +109,7 @@ func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
 
 func (self *FrameMap) Get(key string) (ret *Data) {
 	visited := set.New()
-	self.Mutex.RLock()
 	ret = self.getHelper(key, visited)
-	self.Mutex.RUnlock()
 	return
 }
 
diff --git a/json_frame_support.go b/json_frame_support.go
index f368677..2296359 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -235,14 +235,12 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 
 	if FrameP(d) {
 		dict := make(map[string]interface{}, Length(d))
-		frame := FrameValue(d)
-		frame.Mutex.RLock()
+		frame := FrameValue(d).Clone()
 		for k, v := range frame.Data {
 			if !FunctionP(v) {
 				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
-		frame.Mutex.RUnlock()
 		return dict
 	}
 
diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..8486346 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -179,8 +179,6 @@ func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
 		return nil
 	}
 
-	f.Mutex.RLock()
-	defer f.Mutex.RUnlock()
 	for _, p := range f.Parents() {
 		fun := p.Get(selector)
 		if fun != nil {
-- 
2.43.0


From 9f3b87c208eb606700b77edad6ba6b83d5392cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:51 +0000
Subject: [PATCH 07/38] fix: environment-assign! does not change a protected
 binding

---
 prim_environment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index 7821ebb..b916358 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -7,6 +7,10 @@
 
 package golisp
 
+import (
+	"fmt"
+)
+
 func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment?", "1", EnvironmentPImpl)
 	MakePrimitiveFunction("environment-has-parent?", "1", EnvironmentParentPImpl)
@@ -246,6 +250,10 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
+		if binding.Protected {
+			err = ProcessError(fmt.Sprintf("%s is a protected binding", StringValue(Cadr(args))), env)
+			return
+		}
 		result = Caddr(args)
 		binding.Val = result
 	}
-- 
2.43.0


From bb6bd005069078e3d635a3bf5d7bf046f02dcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:58 +0000
Subject: [PATCH 08/38] fix: listing an environment's bindings holds its lock

---
 prim_environment.go   | 6 +++---
 symbol_table_frame.go | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index b916358..9e0a539 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -69,7 +69,7 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.bindingList() {
 		keys = append(keys, val.Sym)
 	}
 	return ArrayToList(keys), nil
@@ -82,7 +82,7 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.bindingList() {
 		if MacroP(val.Val) {
 			keys = append(keys, val.Sym)
 		}
@@ -97,7 +97,7 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.bindingList() {
 		if NilP(val.Val) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..ad57ed0 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -181,6 +181,15 @@ func (self *SymbolTableFrame) DeleteBinding(name string) {
 	self.Mutex.Unlock()
 }
 
+func (self *SymbolTableFrame) bindingList() (bindings []*Binding) {
+	self.Mutex.RLock()
+	for _, b := range self.Bindings {
+		bindings = append(bindings, b)
+	}
+	self.Mutex.RUnlock()
+	return
+}
+
 func (self *SymbolTableFrame) findSymbol(name string) (symbol *Data, found bool) {
 	binding, found := self.BindingNamed(name)
 	if found {
-- 
2.43.0


From aa05d92d6f13e3e361586c3969fa1296fda4b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:05 +0000
Subject: [PATCH 09/38] fix: two processes interning the same name get the same
 symbol

---
 symbol_table_frame.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index ad57ed0..6e3306a 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -52,8 +52,11 @@ func Intern(name string) (sym *Data) {
 	internedSymbols.Mutex.RUnlock()
 	if sym == nil {
 		internedSymbols.Mutex.Lock()
-		sym = SymbolWithName(name)
-		internedSymbols.Symbols[name] = sym
+		sym = internedSymbols.Symbols[name]
+		if sym == nil {
+			sym = SymbolWithName(name)
+			internedSymbols.Symbols[name] = sym
+		}
 		internedSymbols.Mutex.Unlock()
 	}
 	return
-- 
2.43.0


From 50734791119587dde8b470913127825ea846ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:23 +0000
Subject: [PATCH 10/38] fix: => and ==> pass the computed value on without
 evaluating it again

---
 prim_special_forms.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index 73ca4a0..98f24dd 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -481,9 +481,9 @@ func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(QuoteIt(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(QuoteIt(value), nil))
 		}
 		value, err = Eval(newExpr, env)
 		if err != nil {
@@ -507,9 +507,9 @@ func TapImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(QuoteIt(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(QuoteIt(value), nil))
 		}
 		_, err = Eval(newExpr, env)
 		if err != nil {
-- 
2.43.0


From 92d0fed45e996a6d3bab174e30aa3db2aad1026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 11/38] fix: comparing integers and taking their absolute value
 is exact

---
 prim_math.go             |  9 ++++++---
 prim_relative_logical.go | 12 ++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 9438e10..938c8ff 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -596,11 +596,14 @@ func AbsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		err = ProcessError(fmt.Sprintf("abs expected a number, received %s", String(Car(args))), env)
 		return
 	}
-	absval := math.Abs(float64(FloatValue(val)))
 	if IntegerP(val) {
-		result = IntegerWithValue(int64(absval))
+		n := IntegerValue(val)
+		if n < 0 {
+			n = -n
+		}
+		result = IntegerWithValue(n)
 	} else {
-		result = FloatWithValue(float32(absval))
+		result = FloatWithValue(float32(math.Abs(float64(FloatValue(val)))))
 	}
 	return
 }
diff --git a/prim_relative_logical.go b/prim_relative_logical.go
index 9075e56..ebed5f4 100644
--- a/prim_relative_logical.go
+++ b/prim_relative_logical.go
@@ -42,6 +42,9 @@ func LessThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	val := FloatValue(arg1) < FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) < IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -59,6 +62,9 @@ func GreaterThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 	}
 
 	val := FloatValue(arg1) > FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) > IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -88,6 +94,9 @@ func LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 	}
 
 	val := FloatValue(arg1) <= FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) <= IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
@@ -105,6 +114,9 @@ func GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 
 	val := FloatValue(arg1) >= FloatValue(arg2)
+	if IntegerP(arg1) && IntegerP(arg2) {
+		val = IntegerValue(arg1) >= IntegerValue(arg2)
+	}
 	return BooleanWithValue(val), nil
 }
 
-- 
2.43.0


From 9eae358ddd7d12356e613c888a8f902c8cb77371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:49 +0000
Subject: [PATCH 12/38] fix: %, capitalize, substring, take, drop, interval and
 apply no longer panic on unusual arguments

---
 prim_list_access.go   | 8 ++++++++
 prim_math.go          | 7 ++++++-
 prim_special_forms.go | 2 +-
 prim_string.go        | 7 +++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..ac5c13b 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -271,8 +271,12 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("take requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
+	if size < 0 {
+		size = 0
+	}
 
 	l := Cadr(args)
 	if ListP(l) {
@@ -304,8 +308,12 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("drop requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
+	if size < 0 {
+		size = 0
+	}
 
 	l := Cadr(args)
 
diff --git a/prim_math.go b/prim_math.go
index 938c8ff..d50be5d 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -295,6 +295,11 @@ func RemainderImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if IntegerValue(divisor) == 0 {
+		err = ProcessError(fmt.Sprintf("%%/modulo: %s -> Divide by zero.", String(args)), env)
+		return
+	}
+
 	val := IntegerValue(dividend) % IntegerValue(divisor)
 	return IntegerWithValue(val), nil
 }
@@ -341,7 +346,7 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			step = direction
 		}
 	}
-	var items []*Data = make([]*Data, 0, int(math.Abs(float64(end-start)))+1)
+	var items []*Data = make([]*Data, 0, 10)
 
 	if direction == 1 {
 		for i := start; i <= end; i = i + step {
diff --git a/prim_special_forms.go b/prim_special_forms.go
index 98f24dd..d1a45f1 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -455,7 +455,7 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 	ary := ToArray(Cdr(args))
 	var argList *Data
-	if ListP(ary[len(ary)-1]) {
+	if len(ary) > 0 && ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
 			argList = ArrayToListWithTail(ary[0:len(ary)-1], ary[len(ary)-1])
 		} else {
diff --git a/prim_string.go b/prim_string.go
index 0e9fd84..f8032af 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -183,6 +183,9 @@ func StringDowncaseBangImpl(args *Data, env *SymbolTableFrame) (result *Data, er
 }
 
 func capitalize(s string) string {
+	if s == "" {
+		return s
+	}
 	firstChar := s[0:1]
 	remainingChars := s[1:]
 	parts := make([]string, 0, 2)
@@ -261,8 +264,8 @@ func SubstringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	if startValue > endValue {
-		err = ProcessError(fmt.Sprintf("substring requires start <= end."), env)
+	if startValue < 0 || startValue > endValue {
+		err = ProcessError(fmt.Sprintf("substring requires 0 <= start <= end."), env)
 		return
 	}
 
-- 
2.43.0


From b5dab58585fa22e3764fcffab78a3025ea3b051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:56 +0000
Subject: [PATCH 13/38] fix: arithmetic rejects a non-number after a float

---
 prim_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index d50be5d..003eb8e 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -168,10 +168,10 @@ func anyFloats(args *Data, env *SymbolTableFrame) (result bool, err error) {
 			return
 		}
 		if FloatP(Car(c)) {
-			return true, nil
+			result = true
 		}
 	}
-	return false, nil
+	return
 }
 
 func AddImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 0c7e6fcecd955378bcf85f2a0254dc43e2d9c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:10 +0000
Subject: [PATCH 14/38] fix: format with a truncated directive and a negative
 general-car-cdr path are errors, not a crash or a hang

---
 prim_concurrency.go |  2 +-
 prim_io.go          | 18 +++++++++++++-----
 prim_list_access.go |  4 ++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index f423be9..d1ecd46 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -413,7 +413,7 @@ func callWithPanicProtection(f func(), prefix string) {
 			stackBuf := make([]byte, 10000)
 			stackBuf = stackBuf[:runtime.Stack(stackBuf, false)]
 			stack := strings.Split(string(stackBuf), "\n")
-			for i := 0; i < 7; i++ {
+			for i := 0; i < 7 && i < len(stack); i++ {
 				fmt.Println(stack[i])
 			}
 		}
diff --git a/prim_io.go b/prim_io.go
index b2c919b..cb68776 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -222,19 +222,27 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var padding string
 	var n int64
 
+	// The control string can end in the middle of a substitution
+	charAt := func(index int) byte {
+		if index < len(controlString) {
+			return controlString[index]
+		}
+		return 0
+	}
+
 	for i < len(controlString) {
 		if controlString[i] == '~' { // start of a substitution
 			parts = append(parts, controlString[start:i])
 			i++
 			start = i
-			for unicode.IsDigit(rune(controlString[i])) {
+			for unicode.IsDigit(rune(charAt(i))) {
 				i++
 			}
 			if i == start {
-				if controlString[i] == '#' {
+				if charAt(i) == '#' {
 					numericArg = Length(arguments)
 					i++
-				} else if controlString[i] == 'V' || controlString[i] == 'v' {
+				} else if charAt(i) == 'V' || charAt(i) == 'v' {
 					if IntegerP(Car(arguments)) {
 						numericArg = int(IntegerValue(Car(arguments)))
 						arguments = Cdr(arguments)
@@ -253,11 +261,11 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if controlString[i] == '@' {
+			if charAt(i) == '@' {
 				atModifier = true
 				i++
 			}
-			switch controlString[i] {
+			switch charAt(i) {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
diff --git a/prim_list_access.go b/prim_list_access.go
index ac5c13b..e0622f5 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -196,8 +196,8 @@ func CddddrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	list := Car(args)
 	path := IntegerValue(Cadr(args))
-	if path == 0 {
-		err = errors.New("general-car-cdr requires a non-zero path specifier")
+	if path <= 0 {
+		err = errors.New("general-car-cdr requires a positive, non-zero path specifier")
 		return
 	}
 	for path != 1 {
-- 
2.43.0


From 69d46c099c9a827cf201a2393b404f53f65fc3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 15/38] fix: an empty JSON array becomes an ordinary empty list

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 2296359..b1ad4a4 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -143,7 +143,7 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 		}
 	case reflect.Array, reflect.Slice:
 		if rv.Len() == 0 {
-			return &Data{Type: ConsCellType, Value: nil}
+			return EmptyCons()
 		} else {
 			var ary *Data
 			for i := 0; i < rv.Len(); i++ {
-- 
2.43.0


From 24c5862aeae9555ca67bf4726c470c935e6f7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:55 +0000
Subject: [PATCH 16/38] fix: input ending inside a string, a dotted tail or
 after a quote is an error

---
 parser.go    | 17 ++++++++++++++++-
 tokenizer.go |  2 +-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 174d45d..dd27d3b 100644
--- a/parser.go
+++ b/parser.go
@@ -77,7 +77,10 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if tok == PERIOD {
 			s.ConsumeToken()
 			cdr, eof, err = parseExpression(s)
-			if eof || err != nil {
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected closing parenthesis)")
+			}
+			if err != nil {
 				return
 			}
 			tok, _ = s.NextToken()
@@ -254,6 +257,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case QUOTE:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression to quote)")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("quote"), Cons(sexpr, nil))
 			}
@@ -261,6 +267,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case BACKQUOTE:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression to quasiquote)")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("quasiquote"), Cons(sexpr, nil))
 			}
@@ -268,6 +277,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case COMMA:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression to unquote)")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote"), Cons(sexpr, nil))
 			}
@@ -275,6 +287,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case COMMAAT:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression to unquote-splicing)")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote-splicing"), Cons(sexpr, nil))
 			}
diff --git a/tokenizer.go b/tokenizer.go
index 0b3cf9f..cc4b71d 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -210,7 +210,7 @@ func (self *Tokenizer) readString() (token int, lit string) {
 		self.Advance()
 	}
 	if self.isEof() {
-		return EOF, ""
+		return ILLEGAL, "unterminated string"
 	}
 	self.Advance()
 	return STRING, string(buffer)
-- 
2.43.0


From 4f70009127869e9f9d0adcaa8833217011bebec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:02 +0000
Subject: [PATCH 17/38] fix: loading a file goes on after an empty list at top
 level

---
 parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser.go b/parser.go
index dd27d3b..498f88a 100644
--- a/parser.go
+++ b/parser.go
@@ -368,9 +368,6 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 		if eof {
 			return
 		}
-		if NilP(sexpr) {
-			return
-		}
 		result, err = Eval(sexpr, env)
 		if err != nil {
 			return
-- 
2.43.0


From cbc9473696284713804d81763cb66b656672b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 18/38] fix: a failing read ends the input instead of being
 read as endless text

---
 tokenizer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index cc4b71d..6e1eab3 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -10,7 +10,6 @@ package golisp
 import (
 	"fmt"
 	"github.com/SteelSeries/bufrr"
-	"io"
 	"os"
 	"strings"
 	"unicode"
@@ -79,12 +78,12 @@ func NewTokenizerFromFile(src *os.File) *Tokenizer {
 func (self *Tokenizer) Advance() {
 	var err error
 	self.CurrentCh, _, err = self.Source.ReadRune()
-	if err == io.EOF || self.CurrentCh == -1 {
+	if err != nil || self.CurrentCh == -1 {
 		self.Eof = true
 		self.NextCh = 0
 	} else {
 		self.NextCh, _, err = self.Source.ReadRune()
-		if err == io.EOF || self.NextCh == -1 {
+		if err != nil || self.NextCh == -1 {
 			self.AlmostEof = true
 		} else {
 			self.Source.UnreadRune()
-- 
2.43.0


From b8463810b2a2bfdfac0b7693297dab5f9b60d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:01 +0000
Subject: [PATCH 19/38] fix: converting JSON null or a huge JSON number does
 not crash or garble it

---
 json_frame_support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index b1ad4a4..1ba1e40 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -161,7 +161,7 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 		return IntegerWithValue(int64(rv.Uint()))
 	case reflect.Float32, reflect.Float64:
 		floatValue := rv.Float()
-		if math.Trunc(floatValue) == floatValue {
+		if math.Trunc(floatValue) == floatValue && math.Abs(floatValue) < math.MaxInt64 {
 			return IntegerWithValue(int64(floatValue))
 		} else {
 			return FloatWithValue(float32(floatValue))
@@ -193,7 +193,7 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 		m.Data = make(FrameMapData, 0)
 		return FrameWithValue(&m)
 	}
-	return jsonToLispWithFramesReflect(reflect.ValueOf(data))
+	return JsonToLispWithFrames(data)
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
-- 
2.43.0


From 788dbd74c7ef1bf6e72af607d18fa8fc03c648c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:08 +0000
Subject: [PATCH 20/38] fix: floats and booleans survive the alist JSON
 conversion

---
 json_support.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json_support.go b/json_support.go
index 06d837d..bc67ce6 100644
--- a/json_support.go
+++ b/json_support.go
@@ -76,6 +76,14 @@ func LispToJson(d *Data) (result interface{}) {
 		return IntegerValue(d)
 	}
 
+	if FloatP(d) {
+		return FloatValue(d)
+	}
+
+	if BooleanP(d) {
+		return BooleanValue(d)
+	}
+
 	if StringP(d) || SymbolP(d) {
 		return StringValue(d)
 	}
-- 
2.43.0


From 8b2a9794cba83d0c7f757282b2205030e74580e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:16 +0000
Subject: [PATCH 21/38] fix: a printed string escapes its backslashes, as the
 reader needs

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 68471ff..0bbd814 100644
--- a/data.go
+++ b/data.go
@@ -911,7 +911,7 @@ func IsEqual(d *Data, o *Data) bool {
 func escapeQuotes(str string) string {
 	buffer := make([]rune, 0, 10)
 	for _, ch := range str {
-		if rune(ch) == '"' {
+		if rune(ch) == '"' || rune(ch) == '\\' {
 			buffer = append(buffer, '\\')
 		}
 		buffer = append(buffer, rune(ch))
-- 
2.43.0


From 4c02c5650ee25d7f3e002ee746de24c74d7d81a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:02 +0000
Subject: [PATCH 22/38] fix: a huge number in alist JSON is not garbled

---
 json_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_support.go b/json_support.go
index bc67ce6..9cf4e5b 100644
--- a/json_support.go
+++ b/json_support.go
@@ -37,7 +37,7 @@ func JsonToLisp(json interface{}) (result *Data) {
 
 	numValue, ok := json.(float64)
 	if ok {
-		if math.Trunc(numValue) == numValue {
+		if math.Trunc(numValue) == numValue && math.Abs(numValue) < math.MaxInt64 {
 			return IntegerWithValue(int64(numValue))
 		} else {
 			return FloatWithValue(float32(numValue))
-- 
2.43.0


From d0db4830ee86a22fe6bf321099e8ed0109945e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:09 +0000
Subject: [PATCH 23/38] fix: copy also copies strings and dotted pairs, which
 can be changed in place

---
 data.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data.go b/data.go
index 0bbd814..9ecfb40 100644
--- a/data.go
+++ b/data.go
@@ -778,6 +778,13 @@ func Copy(d *Data) *Data {
 
 			return Cons(Copy(Car(d)), Copy(Cdr(d)))
 		}
+	case AlistCellType:
+		{
+			cell := ConsCell{Car: Copy(Car(d)), Cdr: Copy(Cdr(d))}
+			return &Data{Type: AlistCellType, Value: unsafe.Pointer(&cell)}
+		}
+	case StringType:
+		return StringWithValue(StringValue(d))
 	case FrameType:
 		{
 			m := FrameMap{}
-- 
2.43.0


From c946c8af5c2ea10906c61d17b12ebab7beb3c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:43 +0000
Subject: [PATCH 24/38] fix: close-port reports a failure to close

---
 prim_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_io.go b/prim_io.go
index cb68776..91df592 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -73,7 +73,7 @@ func ClosePortImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	(*os.File)(PortValue(p)).Close()
+	err = (*os.File)(PortValue(p)).Close()
 	return
 
 }
-- 
2.43.0


From ab71f6b84843e006c76e24683db151db7cfac198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 25/38] fix: lisp->json reports a value it cannot convert
 instead of returning an empty string

---
 prim_frame.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prim_frame.go b/prim_frame.go
index 8486346..962912f 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -8,6 +8,7 @@
 package golisp
 
 import (
+	"encoding/json"
 	"fmt"
 )
 
@@ -347,7 +348,12 @@ func JsonToLispImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 func LispToJsonImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l := Car(args)
 
-	return StringWithValue(LispWithFramesToJsonString(l)), nil
+	j, err := json.Marshal(LispWithFramesToJson(l))
+	if err != nil {
+		err = ProcessError(fmt.Sprintf("lisp->json could not convert %s: %s.", String(l), err), env)
+		return
+	}
+	return StringWithValue(string(j)), nil
 }
 
 func FrameKeysImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 64a81b606217a31481b8901e18fe335cf8f09727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:14 +0000
Subject: [PATCH 26/38] fix: bind a bare rest parameter, as in (define (f .
 args) ...), to the list of all arguments

---
 function.go | 3 +++
 macro.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/function.go b/function.go
index 4bdd440..348362d 100644
--- a/function.go
+++ b/function.go
@@ -62,6 +62,9 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
diff --git a/macro.go b/macro.go
index c8f7f9c..778b48f 100644
--- a/macro.go
+++ b/macro.go
@@ -43,6 +43,9 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
-- 
2.43.0


From 3ecd93600d4d5ca8425a73c0c0bd7e1d2b5320d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 27/38] fix: applying a primitive to no arguments passes none

---
 data.go                | 8 ++------
 prim_list_functions.go | 4 ++--
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/data.go b/data.go
index 9ecfb40..132c6ab 100644
--- a/data.go
+++ b/data.go
@@ -716,12 +716,8 @@ func QuoteIt(value *Data) (result *Data) {
 
 func QuoteAll(d *Data) (result *Data) {
 	var l []*Data = make([]*Data, 0, 10)
-	if d == nil {
-		l = append(l, QuoteIt(nil))
-	} else {
-		for c := d; c != nil; c = Cdr(c) {
-			l = append(l, QuoteIt(Car(c)))
-		}
+	for c := d; NotNilP(c); c = Cdr(c) {
+		l = append(l, QuoteIt(Car(c)))
 	}
 	return ArrayToList(l)
 }
diff --git a/prim_list_functions.go b/prim_list_functions.go
index 576304c..7a30cc4 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -354,7 +354,7 @@ func FilterImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var d []*Data = make([]*Data, 0, Length(col))
 	var v *Data
 	for c := col; NotNilP(c); c = Cdr(c) {
-		v, err = ApplyWithoutEval(f, Cons(Car(c), nil), env)
+		v, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
 		if err != nil {
 			return
 		}
@@ -387,7 +387,7 @@ func RemoveImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var d []*Data = make([]*Data, 0, Length(col))
 	var v *Data
 	for c := col; NotNilP(c); c = Cdr(c) {
-		v, err = ApplyWithoutEval(f, Cons(Car(c), nil), env)
+		v, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From efd13f881a163ceeaf0003c987e06666f2a39873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 28/38] fix: extract-bytes takes a huge count for one that fits

The end index overflowed, so (extract-bytes b 1 9223372036854775807) gave the
rest of the array instead of the range error.
---
 prim_bytearray.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_bytearray.go b/prim_bytearray.go
index f0f3bad..5ce8f03 100644
--- a/prim_bytearray.go
+++ b/prim_bytearray.go
@@ -262,7 +262,7 @@ func ExtractBytesImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 		err = ProcessError("Number to extract can not be negative.", env)
 		return
 	}
-	if index+numToExtract > len(*dataBytes) {
+	if numToExtract > len(*dataBytes)-index {
 		err = ProcessError(fmt.Sprintf("extract-bytes final index was out of range.  Was %d but bytearray has length of %d.", index+numToExtract-1, len(*dataBytes)), env)
 		return
 	}
-- 
2.43.0


From b6edada131d6ef2a9ed3578a4dd56a929815d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:26 +0000
Subject: [PATCH 29/38] fix: equality compares the tails of dotted lists

(eq? (quote (1 . 2)) (quote (1 . 3))) was true.
---
 data.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index 132c6ab..51105b6 100644
--- a/data.go
+++ b/data.go
@@ -847,15 +847,16 @@ func IsEqual(d *Data, o *Data) bool {
 	}
 
 	if ListP(d) {
-		if Length(d) != Length(o) {
-			return false
-		}
-		for a1, a2 := d, o; NotNilP(a1); a1, a2 = Cdr(a1), Cdr(a2) {
+		a1, a2 := d, o
+		for ; NotNilP(a1) && PairP(a1) && NotNilP(a2) && PairP(a2); a1, a2 = Cdr(a1), Cdr(a2) {
 			if !IsEqual(Car(a1), Car(a2)) {
 				return false
 			}
 		}
-		return true
+		if NilP(a1) || NilP(a2) {
+			return NilP(a1) && NilP(a2)
+		}
+		return IsEqual(a1, a2) // the tails of dotted lists
 	}
 
 	if FrameP(d) {
-- 
2.43.0


From a97cd48f5b81e0bf1a3860fb6fcf1f9bcf64be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:31 +0000
Subject: [PATCH 30/38] fix: frames with different slots are not equal

A slot holding nil was taken to equal a slot the other frame lacks.
---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 51105b6..863ee75 100644
--- a/data.go
+++ b/data.go
@@ -866,7 +866,8 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 		for k, v := range frameD.Data {
-			if !IsEqual(v, frameO.Data[k]) {
+			other, found := frameO.Data[k]
+			if !found || !IsEqual(v, other) {
 				return false
 			}
 		}
-- 
2.43.0


From d30a477fb06bbd554f166a23f9ed3b48c0631fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:36 +0000
Subject: [PATCH 31/38] fix: equality of an alist and a list holds in either
 order

(eq? (quote ((a . 1))) (alist (quote ((a . 1))))) was false though the same
with the arguments swapped is true.
---
 data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data.go b/data.go
index 863ee75..4847eed 100644
--- a/data.go
+++ b/data.go
@@ -826,6 +826,9 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 	} else if TypeOf(o) != TypeOf(d) {
+		if (AlistP(o) && PairP(d)) || (DottedPairP(o) && PairP(d)) {
+			return IsEqual(o, d)
+		}
 		return false
 	}
 
-- 
2.43.0


From 5c7099c71b7dcf5c05b4d42eb14ba91c24e045c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:48 +0000
Subject: [PATCH 32/38] fix: the @ modifier of format applies to its own
 substitution only

---
 prim_io.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prim_io.go b/prim_io.go
index 91df592..eded7fa 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -261,6 +261,7 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
+			atModifier = false
 			if charAt(i) == '@' {
 				atModifier = true
 				i++
-- 
2.43.0


From 06ca935ad0062151d94ad90556f73c3b5dc567d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:00 +0000
Subject: [PATCH 33/38] fix: format reports missing arguments instead of
 printing ()

---
 prim_io.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index eded7fa..a9d81db 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -267,6 +267,13 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				i++
 			}
 			switch charAt(i) {
+			case 'A', 'a', 'S', 's':
+				if NilP(arguments) {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
+			}
+			switch charAt(i) {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
-- 
2.43.0


From 279762d3ca8d8f01d24453284e198aaa52157b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 34/38] fix: refuse negative numbers in bytearray literals

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 498f88a..fe1964f 100644
--- a/parser.go
+++ b/parser.go
@@ -148,7 +148,7 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if err != nil {
 			return
 		}
-		if IntegerP(element) && IntegerValue(element) > 255 {
+		if IntegerP(element) && (IntegerValue(element) < 0 || IntegerValue(element) > 255) {
 			err = errors.New(fmt.Sprintf("Numeric literals in a bytearray must be bytes. Encountered %s.", String(element)))
 			return
 		}
-- 
2.43.0


From 48e1711ee7479d8415794b3779de5e9aa8886190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 35/38] fix: print all elements of lists that start with quote

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 4847eed..0000826 100644
--- a/data.go
+++ b/data.go
@@ -946,7 +946,7 @@ func String(d *Data) string {
 				c = Cdr(c)
 			}
 			if NilP(c) {
-				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
+				if len(contents) <= 2 && SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
 					if len(contents) == 1 {
 						return fmt.Sprintf("'()")
 					} else {
-- 
2.43.0


From ccf130c007222316b880ec133558ea8fa1123ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:29 +0000
Subject: [PATCH 36/38] fix: keep colons at the end of JSON keys

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 1ba1e40..2fad8dd 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -238,7 +238,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 		frame := FrameValue(d).Clone()
 		for k, v := range frame.Data {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
 		return dict
-- 
2.43.0


From 4374061823f6807bc6ec1610056fc331e163a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:42 +0000
Subject: [PATCH 37/38] fix: keep nulls and empty arrays at the ends of JSON
 arrays

---
 json_frame_support.go | 3 +++
 json_support.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/json_frame_support.go b/json_frame_support.go
index 2fad8dd..34d97b9 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -149,6 +149,9 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 			for i := 0; i < rv.Len(); i++ {
 				val := rv.Index(i)
 				value := jsonToLispWithFramesReflect(val)
+				if value == nil {
+					value = EmptyCons() // a pair of two nils would be the empty list
+				}
 				ary = Cons(value, ary)
 			}
 			return Reverse(ary)
diff --git a/json_support.go b/json_support.go
index 9cf4e5b..97e99ed 100644
--- a/json_support.go
+++ b/json_support.go
@@ -30,6 +30,9 @@ func JsonToLisp(json interface{}) (result *Data) {
 		var ary *Data
 		for _, val := range arrayValue {
 			value := JsonToLisp(val)
+			if value == nil {
+				value = EmptyCons() // a pair of two nils would be the empty list
+			}
 			ary = Cons(value, ary)
 		}
 		return Reverse(ary)
-- 
2.43.0


From 4b876ab928f7b2ba5bb883570137a675a868585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:17 +0000
Subject: [PATCH 38/38] fix: print profile records as they are, not as format
 strings

---
 profiling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling.go b/profiling.go
index f92fbba..034bd24 100644
--- a/profiling.go
+++ b/profiling.go
@@ -44,9 +44,9 @@ func ProfileEnter(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
@@ -55,9 +55,9 @@ func ProfileExit(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
-- 
2.43.0

