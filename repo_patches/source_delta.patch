From 308d171e7a456891eab56ab370664234f161efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 01/55] fix: a mock bound to another instance no longer hides
 earlier or global mocks

---
 .../runtime_gen/internal/trap/stack_data.go   | 27 ++++++++++++-------
 .../asset/runtime_gen/internal/trap/trap.go   |  4 +--
 runtime/internal/trap/stack_data.go           | 27 ++++++++++++-------
 runtime/internal/trap/trap.go                 |  4 +--
 4 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index 146281c..bc2fa4b 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -78,19 +78,28 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the most recent mock that applies to the receiver:
+// a mock bound to another instance must not hide the mocks before it.
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		if m := lastMockOf(c.interceptors.mock[pc], recvPtr); m != nil {
+			return m.mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr); m != nil {
+		return m.mock
+	}
+	return nil
+}
+
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}) *mockHolder {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 879b509..93e0b06 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -135,7 +135,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mockFn := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,7 +148,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
+	if mockFn != nil {
 		mock = mockFn
 	}
 
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index 146281c..bc2fa4b 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -78,19 +78,28 @@ type varRecordHolder struct {
 	post func(fnInfo *core.FuncInfo, res interface{}, data interface{})
 }
 
-func (c *StackData) getLastMock(pc uintptr) (recvPtr interface{}, mock func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool) {
-	var mockList []*mockHolder
+// getLastMock returns the most recent mock that applies to the receiver:
+// a mock bound to another instance must not hide the mocks before it.
+func (c *StackData) getLastMock(pc uintptr, recvPtr interface{}) func(fnInfo *core.FuncInfo, recvPtr interface{}, args []interface{}, results []interface{}) bool {
 	if c != nil {
-		mockList = c.interceptors.mock[pc]
+		if m := lastMockOf(c.interceptors.mock[pc], recvPtr); m != nil {
+			return m.mock
+		}
 	}
-	if len(mockList) == 0 {
-		mockList = globalInterceptorHolder.mock[pc]
-		if len(mockList) == 0 {
-			return nil, nil
+	if m := lastMockOf(globalInterceptorHolder.mock[pc], recvPtr); m != nil {
+		return m.mock
+	}
+	return nil
+}
+
+func lastMockOf(mockList []*mockHolder, recvPtr interface{}) *mockHolder {
+	for i := len(mockList) - 1; i >= 0; i-- {
+		m := mockList[i]
+		if m.wantRecvPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, m.wantRecvPtr)) {
+			return m
 		}
 	}
-	m := mockList[len(mockList)-1]
-	return m.wantRecvPtr, m.mock
+	return nil
 }
 
 func (c *StackData) getLastVarMock(varAddr uintptr) (mock func(fnInfo *core.FuncInfo, res interface{})) {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 879b509..93e0b06 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -135,7 +135,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	//
 	//
 	// === start check mock and interceptors ===
-	wantPtr, mockFn := stackData.getLastMock(fnPC)
+	mockFn := stackData.getLastMock(fnPC, recvPtr)
 	recordHandlers := stackData.getRecordHandlers(fnPC)
 	var interceptors []*recorderHolder
 	if depth <= 1 {
@@ -148,7 +148,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		// targeted function
 		interceptors = stackData.getGeneralInterceptors()
 	}
-	if mockFn != nil && (wantPtr == nil || (recvPtr != nil && sameReceiver(recvPtr, wantPtr))) {
+	if mockFn != nil {
 		mock = mockFn
 	}
 
-- 
2.43.0


From ccb6c6d6c2069c5ef74e61acb6d25254ef4e7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 02/55] fix: mocking a method of an uncomparable value receiver
 no longer panics on call

---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 13 ++++++++++++-
 runtime/internal/trap/mock.go                   | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index e6b4a9b..f317eae 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -364,7 +364,18 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
-	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
+	return equalReceiver(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+}
+
+// equalReceiver compares two receiver values. Value receivers may
+// be of, or contain, types that cannot be compared with ==.
+func equalReceiver(a interface{}, b interface{}) (equal bool) {
+	defer func() {
+		if e := recover(); e != nil {
+			equal = reflect.DeepEqual(a, b)
+		}
+	}()
+	return a == b
 }
 
 // return `true` if hit ptr type
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index e6b4a9b..f317eae 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -364,7 +364,18 @@ func sameReceiver(recvPtr interface{}, actRecvPtr interface{}) bool {
 	// assume both are non-nil
 	recvPtrVal := reflect.ValueOf(recvPtr)
 	actRecvPtrVal := reflect.ValueOf(actRecvPtr)
-	return recvPtrVal.Elem().Interface() == actRecvPtrVal.Elem().Interface()
+	return equalReceiver(recvPtrVal.Elem().Interface(), actRecvPtrVal.Elem().Interface())
+}
+
+// equalReceiver compares two receiver values. Value receivers may
+// be of, or contain, types that cannot be compared with ==.
+func equalReceiver(a interface{}, b interface{}) (equal bool) {
+	defer func() {
+		if e := recover(); e != nil {
+			equal = reflect.DeepEqual(a, b)
+		}
+	}()
+	return a == b
 }
 
 // return `true` if hit ptr type
-- 
2.43.0


From 75cae9e6992017a29e19f6700332cf7671b14559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 03/55] fix: PatchMethodByName no longer panics with index out
 of range

---
 cmd/xgo/asset/runtime_gen/internal/trap/object.go | 2 +-
 runtime/internal/trap/object.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 831bf43..29ed304 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 831bf43..29ed304 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -168,7 +168,7 @@ func checkFuncTypeMatch(a reflect.Type, b reflect.Type, skipAFirst bool) (atype
 		return formatFuncType(a, skipAFirst), formatFuncType(b, false), false
 	}
 
-	for i := 0; i < na; i++ {
+	for i := 0; i < nb; i++ {
 		ta := a.In(i + base)
 		tb := b.In(i)
 		if ta != tb {
-- 
2.43.0


From fe8a4bfd6fa7ca0e8292c7b98cf4c5cd00a46978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 04/55] fix: mocking an unknown variable pointer by name
 reports failure instead of a nil dereference

---
 cmd/xgo/asset/runtime_gen/internal/trap/mock.go | 2 +-
 runtime/internal/trap/mock.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
index f317eae..2e04361 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/mock.go
@@ -329,7 +329,7 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
 	if strings.HasPrefix(funcName, "*") {
 		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
-		if ptrFn.Kind == core.Kind_Var {
+		if ptrFn != nil && ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
diff --git a/runtime/internal/trap/mock.go b/runtime/internal/trap/mock.go
index f317eae..2e04361 100644
--- a/runtime/internal/trap/mock.go
+++ b/runtime/internal/trap/mock.go
@@ -329,7 +329,7 @@ func pushMockReplacerMethodByName(instance interface{}, method string, replacer
 func getFuncByName(pkgPath string, funcName string) (recvPtr interface{}, fn *core.FuncInfo, funcPC uintptr, trappingPC uintptr) {
 	if strings.HasPrefix(funcName, "*") {
 		ptrFn := functab.GetFuncByPkg(pkgPath, funcName[1:])
-		if ptrFn.Kind == core.Kind_Var {
+		if ptrFn != nil && ptrFn.Kind == core.Kind_Var {
 			return ptrFn.Var, ptrFn, ptrFn.PC, ptrFn.PC
 		}
 	}
-- 
2.43.0


From 2cf12b9e6d3199737cd9c1370417a27c0e6f241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 05/55] fix: each recorder and interceptor runs its own post
 hook

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 2 ++
 cmd/xgo/asset/runtime_gen/internal/trap/var.go  | 2 ++
 runtime/internal/trap/trap.go                   | 2 ++
 runtime/internal/trap/var.go                    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 93e0b06..978a594 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post closure
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post closure
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 391589a..4e724e6 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post closure
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post closure
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 93e0b06..978a594 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -155,6 +155,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var postRecordersAndInterceptors []func()
 	var mocked bool
 	for _, h := range recordHandlers {
+		h := h // captured by the post closure
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
 			continue
 		}
@@ -176,6 +177,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	if !mocked {
 		for _, h := range interceptors {
+			h := h // captured by the post closure
 			var data interface{}
 			var stop bool
 			if h.pre != nil {
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 391589a..4e724e6 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -109,6 +109,7 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
 	for _, recorder := range recorders {
+		recorder := recorder // captured by the post closure
 		var data interface{}
 		if recorder.pre != nil {
 			data, _ = recorder.pre(funcInfo, res)
@@ -122,6 +123,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		interceptor := interceptor // captured by the post closure
 		var data interface{}
 		if interceptor.pre != nil {
 			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
-- 
2.43.0


From 85f5c550a39c270b9acaddcd2ce2d26ff44b1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 06/55] fix: recorders inherited by a new goroutine stay bound
 to their receiver

---
 cmd/xgo/asset/runtime_gen/internal/trap/init.go | 2 ++
 runtime/internal/trap/init.go                   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/init.go b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
index ec2d5e8..1244a3f 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/init.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/init.go
@@ -113,6 +113,8 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
+				wantRecvPtr: recorder.wantRecvPtr,
+
 				pre:  recorder.pre,
 				post: recorder.post,
 			}
diff --git a/runtime/internal/trap/init.go b/runtime/internal/trap/init.go
index ec2d5e8..1244a3f 100644
--- a/runtime/internal/trap/init.go
+++ b/runtime/internal/trap/init.go
@@ -113,6 +113,8 @@ func cloneFuncRecordMapping(recorders map[uintptr][]*recorderHolder) map[uintptr
 		newRecorders[pc] = make([]*recorderHolder, len(recorders))
 		for i, recorder := range recorders {
 			newRecorders[pc][i] = &recorderHolder{
+				wantRecvPtr: recorder.wantRecvPtr,
+
 				pre:  recorder.pre,
 				post: recorder.post,
 			}
-- 
2.43.0


From 2bb73dff9a7ea849fe2122973964798756e8e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 07/55] fix: a hook cancelling hooks during a call no longer
 skips or repeats others

---
 .../runtime_gen/internal/trap/stack_data.go   | 64 ++++++++-----------
 runtime/internal/trap/stack_data.go           | 64 ++++++++-----------
 2 files changed, 56 insertions(+), 72 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index bc2fa4b..f0e6348 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -138,16 +138,14 @@ func (c *StackData) getRecordHandlers(pc uintptr) []*recorderHolder {
 	if c != nil {
 		localRecorders = c.interceptors.recorder[pc]
 	}
-	if len(globalRecorders) > 0 && len(localRecorders) > 0 {
-		list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
-		copy(list, localRecorders)
-		copy(list[len(localRecorders):], globalRecorders)
-		return list
-	}
-	if len(localRecorders) > 0 {
-		return localRecorders
+	if len(globalRecorders) == 0 && len(localRecorders) == 0 {
+		return nil
 	}
-	return globalRecorders
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
+	copy(list, localRecorders)
+	copy(list[len(localRecorders):], globalRecorders)
+	return list
 }
 
 func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -156,16 +154,14 @@ func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
 	if c != nil {
 		localVarRecorders = c.interceptors.varRecorder[varAddr]
 	}
-	if len(globalVarRecorders) > 0 && len(localVarRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
-		copy(list, localVarRecorders)
-		copy(list[len(localVarRecorders):], globalVarRecorders)
-		return list
-	}
-	if len(localVarRecorders) > 0 {
-		return localVarRecorders
+	if len(globalVarRecorders) == 0 && len(localVarRecorders) == 0 {
+		return nil
 	}
-	return globalVarRecorders
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
+	copy(list, localVarRecorders)
+	copy(list[len(localVarRecorders):], globalVarRecorders)
+	return list
 }
 
 func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -174,16 +170,14 @@ func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder
 	if c != nil {
 		localVarPtrRecorders = c.interceptors.varPtrRecorder[varAddr]
 	}
-	if len(globalVarPtrRecorders) > 0 && len(localVarPtrRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
-		copy(list, localVarPtrRecorders)
-		copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
-		return list
-	}
-	if len(localVarPtrRecorders) > 0 {
-		return localVarPtrRecorders
+	if len(globalVarPtrRecorders) == 0 && len(localVarPtrRecorders) == 0 {
+		return nil
 	}
-	return globalVarPtrRecorders
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
+	copy(list, localVarPtrRecorders)
+	copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
+	return list
 }
 
 func (c *StackData) getGeneralInterceptors() []*recorderHolder {
@@ -192,14 +186,12 @@ func (c *StackData) getGeneralInterceptors() []*recorderHolder {
 	if c != nil {
 		localInterceptors = c.interceptors.interceptors
 	}
-	if len(globalInterceptors) > 0 && len(localInterceptors) > 0 {
-		list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
-		copy(list, localInterceptors)
-		copy(list[len(localInterceptors):], globalInterceptors)
-		return list
-	}
-	if len(localInterceptors) > 0 {
-		return localInterceptors
+	if len(globalInterceptors) == 0 && len(localInterceptors) == 0 {
+		return nil
 	}
-	return globalInterceptors
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
+	copy(list, localInterceptors)
+	copy(list[len(localInterceptors):], globalInterceptors)
+	return list
 }
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index bc2fa4b..f0e6348 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -138,16 +138,14 @@ func (c *StackData) getRecordHandlers(pc uintptr) []*recorderHolder {
 	if c != nil {
 		localRecorders = c.interceptors.recorder[pc]
 	}
-	if len(globalRecorders) > 0 && len(localRecorders) > 0 {
-		list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
-		copy(list, localRecorders)
-		copy(list[len(localRecorders):], globalRecorders)
-		return list
-	}
-	if len(localRecorders) > 0 {
-		return localRecorders
+	if len(globalRecorders) == 0 && len(localRecorders) == 0 {
+		return nil
 	}
-	return globalRecorders
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*recorderHolder, len(localRecorders)+len(globalRecorders))
+	copy(list, localRecorders)
+	copy(list[len(localRecorders):], globalRecorders)
+	return list
 }
 
 func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -156,16 +154,14 @@ func (c *StackData) getVarRecordHandlers(varAddr uintptr) []*varRecordHolder {
 	if c != nil {
 		localVarRecorders = c.interceptors.varRecorder[varAddr]
 	}
-	if len(globalVarRecorders) > 0 && len(localVarRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
-		copy(list, localVarRecorders)
-		copy(list[len(localVarRecorders):], globalVarRecorders)
-		return list
-	}
-	if len(localVarRecorders) > 0 {
-		return localVarRecorders
+	if len(globalVarRecorders) == 0 && len(localVarRecorders) == 0 {
+		return nil
 	}
-	return globalVarRecorders
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*varRecordHolder, len(localVarRecorders)+len(globalVarRecorders))
+	copy(list, localVarRecorders)
+	copy(list[len(localVarRecorders):], globalVarRecorders)
+	return list
 }
 
 func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder {
@@ -174,16 +170,14 @@ func (c *StackData) getVarPtrRecordHandlers(varAddr uintptr) []*varRecordHolder
 	if c != nil {
 		localVarPtrRecorders = c.interceptors.varPtrRecorder[varAddr]
 	}
-	if len(globalVarPtrRecorders) > 0 && len(localVarPtrRecorders) > 0 {
-		list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
-		copy(list, localVarPtrRecorders)
-		copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
-		return list
-	}
-	if len(localVarPtrRecorders) > 0 {
-		return localVarPtrRecorders
+	if len(globalVarPtrRecorders) == 0 && len(localVarPtrRecorders) == 0 {
+		return nil
 	}
-	return globalVarPtrRecorders
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*varRecordHolder, len(localVarPtrRecorders)+len(globalVarPtrRecorders))
+	copy(list, localVarPtrRecorders)
+	copy(list[len(localVarPtrRecorders):], globalVarPtrRecorders)
+	return list
 }
 
 func (c *StackData) getGeneralInterceptors() []*recorderHolder {
@@ -192,14 +186,12 @@ func (c *StackData) getGeneralInterceptors() []*recorderHolder {
 	if c != nil {
 		localInterceptors = c.interceptors.interceptors
 	}
-	if len(globalInterceptors) > 0 && len(localInterceptors) > 0 {
-		list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
-		copy(list, localInterceptors)
-		copy(list[len(localInterceptors):], globalInterceptors)
-		return list
-	}
-	if len(localInterceptors) > 0 {
-		return localInterceptors
+	if len(globalInterceptors) == 0 && len(localInterceptors) == 0 {
+		return nil
 	}
-	return globalInterceptors
+	// always copy: a hook may cancel hooks while the list is being iterated
+	list := make([]*recorderHolder, len(localInterceptors)+len(globalInterceptors))
+	copy(list, localInterceptors)
+	copy(list[len(localInterceptors):], globalInterceptors)
+	return list
 }
-- 
2.43.0


From be1ecf58e8bd22fb46dfef19c3f9efe2a3529f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 08/55] fix: an error returned by a pre interceptor becomes the
 call's error

---
 cmd/xgo/asset/runtime_gen/internal/trap/build.go | 2 ++
 runtime/internal/trap/build.go                   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/build.go b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
index b4bf661..ae38ced 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/build.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/build.go
@@ -319,6 +319,8 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				if funcInfo.LastResultErr {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
+					// calling the function would overwrite the error
+					return nil, true
 				} else {
 					panic(err)
 				}
diff --git a/runtime/internal/trap/build.go b/runtime/internal/trap/build.go
index b4bf661..ae38ced 100644
--- a/runtime/internal/trap/build.go
+++ b/runtime/internal/trap/build.go
@@ -319,6 +319,8 @@ func buildRecorderFromInterceptor(recvPtr interface{}, preInterceptor PreInterce
 				if funcInfo.LastResultErr {
 					lastErr := results[len(results)-1].(*error)
 					*lastErr = err
+					// calling the function would overwrite the error
+					return nil, true
 				} else {
 					panic(err)
 				}
-- 
2.43.0


From 344bdffd1737eed1d8a74042e2227b6886373cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 09/55] fix: trace.Record on a variable accepts matching pre
 and post recorders

---
 cmd/xgo/asset/runtime_gen/internal/trap/record.go | 4 ++--
 runtime/internal/trap/record.go                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/record.go b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
index fcea21d..8ab8ad6 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/record.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
diff --git a/runtime/internal/trap/record.go b/runtime/internal/trap/record.go
index fcea21d..8ab8ad6 100644
--- a/runtime/internal/trap/record.go
+++ b/runtime/internal/trap/record.go
@@ -56,11 +56,11 @@ func pushRecorder(fn interface{}, pre interface{}, post interface{}) func() {
 				postV.Call([]reflect.Value{arg})
 			}
 		}
-		if pre != nil && post != nil && preIsPtr == postIsPtr {
+		if pre != nil && post != nil && preIsPtr != postIsPtr {
 			panic(fmt.Errorf("pre-recorder and post-recorder should have the same type, actual: pre has %T, post has %T", pre, post))
 		}
 
-		if !preIsPtr {
+		if !preIsPtr && !postIsPtr {
 			return PushVarRecordHandler(varPtr, preHandler, postHandler)
 		}
 		return PushVarPtrRecordHandler(varPtr, preHandler, postHandler)
-- 
2.43.0


From 1f8edcf02c99ba40965e609ddf5cc19e1aad4597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 10/55] fix: trace.Trace during package initialization no
 longer panics

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 3 ++-
 runtime/internal/trap/trap.go                   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 978a594..3365cf6 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -81,7 +81,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var stackAttached bool
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
-		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC {
+		// during package initialization there is no goroutine stack to trace
+		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC && stk != stack.InitGStack {
 			isStartTracing = true
 			isTracing = true
 		} else if stackData == nil {
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 978a594..3365cf6 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -81,7 +81,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	var stackAttached bool
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
-		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC {
+		// during package initialization there is no goroutine stack to trace
+		if pkg == constants.TRACE_PKG && name == constants.TRACE_FUNC && stk != stack.InitGStack {
 			isStartTracing = true
 			isTracing = true
 		} else if stackData == nil {
-- 
2.43.0


From cb39afa094e64c1b55c9309879e2a86a69a41959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 11/55] fix: finishing a trace keeps the goroutine's mocks and
 stops recording

---
 .../runtime_gen/internal/trap/stack_data.go   | 17 ++++++++++++++
 .../asset/runtime_gen/internal/trap/trap.go   | 23 +++++++++++++------
 runtime/internal/trap/stack_data.go           | 17 ++++++++++++++
 runtime/internal/trap/trap.go                 | 23 +++++++++++++------
 4 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
index f0e6348..e06531f 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/stack_data.go
@@ -39,6 +39,23 @@ type interceptorHolders struct {
 	interceptors []*recorderHolder
 }
 
+// endTracing stops tracing on current goroutine while keeping its
+// mocks and interceptors in effect. prevStk is the stack in use
+// before tracing, if any.
+func (c *StackData) endTracing(prevStk *stack.Stack) {
+	c.hasStartedTracing = false
+	c.filterTrace = nil
+	c.onFinish = nil
+	c.stackOutputFile = ""
+	stack.Detach()
+	if prevStk == nil {
+		prevStk = stack.GetOrAttach()
+		prevStk.SetData(dataKey, c)
+		return
+	}
+	stack.Attach(prevStk)
+}
+
 func getStackData() *StackData {
 	return getStackDataOf(stack.Get())
 }
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 3365cf6..eb54a21 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -78,7 +78,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		isTracing = stackData.hasStartedTracing
 	}
 
-	var stackAttached bool
+	// prevStk is the stack, holding the mocks and interceptors, that
+	// was in use before tracing
+	var prevStk *stack.Stack
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
 		// during package initialization there is no goroutine stack to trace
@@ -126,9 +128,18 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					},
 				}
 				stack.Attach(stk)
-				stackAttached = true
 			} else {
+				// trace onto a new stack that shares the mocks and interceptors
+				prevStk = stk
 				stackData.hasStartedTracing = true
+				stk = &stack.Stack{
+					Begin: begin,
+					Data: map[interface{}]interface{}{
+						dataKey: stackData,
+					},
+				}
+				stack.Detach()
+				stack.Attach(stk)
 			}
 		}
 	}
@@ -301,10 +312,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
-			if stackAttached {
-				stack.Detach()
-			}
-			return postRecorder, false
+			stackData.endTracing(prevStk)
+			return callRecorderWithDepth, false
 		}
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
@@ -446,7 +455,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
+			stackData.endTracing(prevStk)
 		}
 	}
 	if mocked {
diff --git a/runtime/internal/trap/stack_data.go b/runtime/internal/trap/stack_data.go
index f0e6348..e06531f 100644
--- a/runtime/internal/trap/stack_data.go
+++ b/runtime/internal/trap/stack_data.go
@@ -39,6 +39,23 @@ type interceptorHolders struct {
 	interceptors []*recorderHolder
 }
 
+// endTracing stops tracing on current goroutine while keeping its
+// mocks and interceptors in effect. prevStk is the stack in use
+// before tracing, if any.
+func (c *StackData) endTracing(prevStk *stack.Stack) {
+	c.hasStartedTracing = false
+	c.filterTrace = nil
+	c.onFinish = nil
+	c.stackOutputFile = ""
+	stack.Detach()
+	if prevStk == nil {
+		prevStk = stack.GetOrAttach()
+		prevStk.SetData(dataKey, c)
+		return
+	}
+	stack.Attach(prevStk)
+}
+
 func getStackData() *StackData {
 	return getStackDataOf(stack.Get())
 }
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 3365cf6..eb54a21 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -78,7 +78,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		isTracing = stackData.hasStartedTracing
 	}
 
-	var stackAttached bool
+	// prevStk is the stack, holding the mocks and interceptors, that
+	// was in use before tracing
+	var prevStk *stack.Stack
 	if depth <= 1 && !isTracing {
 		// detect if we need to start tracing
 		// during package initialization there is no goroutine stack to trace
@@ -126,9 +128,18 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					},
 				}
 				stack.Attach(stk)
-				stackAttached = true
 			} else {
+				// trace onto a new stack that shares the mocks and interceptors
+				prevStk = stk
 				stackData.hasStartedTracing = true
+				stk = &stack.Stack{
+					Begin: begin,
+					Data: map[interface{}]interface{}{
+						dataKey: stackData,
+					},
+				}
+				stack.Detach()
+				stack.Attach(stk)
 			}
 		}
 	}
@@ -301,10 +312,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 		stackData.filterTrace = filterTrace
 		if outputFile == "" && onFinish == nil {
-			if stackAttached {
-				stack.Detach()
-			}
-			return postRecorder, false
+			stackData.endTracing(prevStk)
+			return callRecorderWithDepth, false
 		}
 		stackData.stackOutputFile = outputFile
 		stackData.onFinish = onFinish
@@ -446,7 +455,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stack.Detach()
+			stackData.endTracing(prevStk)
 		}
 	}
 	if mocked {
-- 
2.43.0


From ff413f25911763cbfcc2c33f1cced0b4d521c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 12/55] fix: a panicking mock or hook leaves what was entered
 before and finishes its trace entry

---
 .../asset/runtime_gen/internal/trap/trap.go   | 105 +++++++++++-------
 runtime/internal/trap/trap.go                 | 105 +++++++++++-------
 2 files changed, 124 insertions(+), 86 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index eb54a21..40f3cce 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -166,6 +166,27 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
+
+	// when a hook or mock panics, the returned post is never run, so
+	// everything entered so far is left here
+	leave := func() {
+		if isStartTracing {
+			defer stackData.endTracing(prevStk)
+		}
+		for _, post := range postRecordersAndInterceptors {
+			defer post()
+		}
+	}
+	callHook := func(hook func()) {
+		var completed bool
+		defer func() {
+			if !completed {
+				leave()
+			}
+		}()
+		hook()
+		completed = true
+	}
 	for _, h := range recordHandlers {
 		h := h // captured by the post closure
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
@@ -174,7 +195,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var data interface{}
 		var stop bool
 		if h.pre != nil {
-			data, stop = h.pre(funcInfo, recvPtr, args, results)
+			callHook(func() {
+				data, stop = h.pre(funcInfo, recvPtr, args, results)
+			})
 			if stop {
 				mocked = true
 				break
@@ -194,7 +217,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			var stop bool
 			if h.pre != nil {
 				// TODO: handle abort
-				data, stop = h.pre(funcInfo, recvPtr, args, results)
+				callHook(func() {
+					data, stop = h.pre(funcInfo, recvPtr, args, results)
+				})
 				if stop {
 					mocked = true
 					break
@@ -213,10 +238,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			postRecorder = postRecordersAndInterceptors[0]
 		} else {
 			postRecorder = func() {
-				// reversed
-				n := len(postRecordersAndInterceptors)
-				for i := n - 1; i >= 0; i-- {
-					postRecordersAndInterceptors[i]()
+				// reversed, each one runs even if another panics
+				for _, post := range postRecordersAndInterceptors {
+					defer post()
 				}
 			}
 		}
@@ -237,32 +261,18 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 	}
 	// === end check mock and interceptors ===
-	if !mocked {
-		if depth > 1 {
-			// when stack is trapping, only allow pc-related
-			// mock and recorders to run
-			// no tracing and general interceptors can run
-			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
-				// ok=true indicates not call old function
-				return callRecorderWithDepth, ok
-			}
-			return callRecorderWithDepth, false
-		}
-
-		if !allowTracingThisEntry {
-			// without tracing, mock becomes simpler
-			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+	if depth > 1 || !allowTracingThisEntry {
+		// when stack is trapping, only allow pc-related
+		// mock and recorders to run
+		// no tracing and general interceptors can run
+		// and without tracing, mock becomes simpler
+		if !mocked && mock != nil {
+			callHook(func() {
 				// ok=true indicates not call old function
-				return callRecorderWithDepth, ok
-			}
-			return callRecorderWithDepth, false
-		}
-	} else {
-		if !allowTracingThisEntry {
-			return callRecorderWithDepth, true
+				mocked = mock(funcInfo, recvPtr, args, results)
+			})
 		}
+		return callRecorderWithDepth, mocked
 	}
 
 	// === init tracing stacks ===
@@ -342,15 +352,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
-	post := func() {
-		xgo_runtime.GetG().IncTrappingDepth()
-		defer xgo_runtime.GetG().DecTrappingDepth()
-
-		// NOTE: this defer might be executed on system stack
-		// so cannot defer
-		if postRecorder != nil {
-			postRecorder()
-		}
+	finish := func(pe interface{}, retpc uintptr) {
 		// on Windows, short stack might resolve to same
 		// nanosecond
 		// see https://github.com/xhd2015/xgo/issues/307
@@ -363,7 +365,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		if pe != nil {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
@@ -394,7 +396,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			//      doThingsPanic()  <-- this reported
 			//    }
 			callerPCs := make([]uintptr, 10)
-			npc := runtime.Callers(2, callerPCs)
+			npc := runtime.Callers(3, callerPCs)
 			callerPCs = callerPCs[:npc]
 			// check which pc matches
 			for _, pc := range callerPCs {
@@ -431,6 +433,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			}
 		})
 		if isStartTracing {
+			defer stackData.endTracing(prevStk)
 			exportedStack := stack.Export(stk, 0)
 			if isTesting {
 				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
@@ -455,14 +458,30 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stackData.endTracing(prevStk)
+		}
+	}
+	post := func() {
+		xgo_runtime.GetG().IncTrappingDepth()
+		defer xgo_runtime.GetG().DecTrappingDepth()
+
+		pe, retpc := xgo_runtime.XgoPeekPanic()
+		// the entry finishes even if a post hook panics
+		defer finish(pe, retpc)
+		if postRecorder != nil {
+			postRecorder()
 		}
 	}
 	if mocked {
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		leave = func() {
+			hitMock = true
+			post()
+		}
+		callHook(func() {
+			hitMock = mock(funcInfo, recvPtr, args, results)
+		})
 		return post, hitMock
 	}
 	return post, false
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index eb54a21..40f3cce 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -166,6 +166,27 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 
 	var postRecordersAndInterceptors []func()
 	var mocked bool
+
+	// when a hook or mock panics, the returned post is never run, so
+	// everything entered so far is left here
+	leave := func() {
+		if isStartTracing {
+			defer stackData.endTracing(prevStk)
+		}
+		for _, post := range postRecordersAndInterceptors {
+			defer post()
+		}
+	}
+	callHook := func(hook func()) {
+		var completed bool
+		defer func() {
+			if !completed {
+				leave()
+			}
+		}()
+		hook()
+		completed = true
+	}
 	for _, h := range recordHandlers {
 		h := h // captured by the post closure
 		if h.wantRecvPtr != nil && (recvPtr == nil || !sameReceiver(recvPtr, h.wantRecvPtr)) {
@@ -174,7 +195,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var data interface{}
 		var stop bool
 		if h.pre != nil {
-			data, stop = h.pre(funcInfo, recvPtr, args, results)
+			callHook(func() {
+				data, stop = h.pre(funcInfo, recvPtr, args, results)
+			})
 			if stop {
 				mocked = true
 				break
@@ -194,7 +217,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			var stop bool
 			if h.pre != nil {
 				// TODO: handle abort
-				data, stop = h.pre(funcInfo, recvPtr, args, results)
+				callHook(func() {
+					data, stop = h.pre(funcInfo, recvPtr, args, results)
+				})
 				if stop {
 					mocked = true
 					break
@@ -213,10 +238,9 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			postRecorder = postRecordersAndInterceptors[0]
 		} else {
 			postRecorder = func() {
-				// reversed
-				n := len(postRecordersAndInterceptors)
-				for i := n - 1; i >= 0; i-- {
-					postRecordersAndInterceptors[i]()
+				// reversed, each one runs even if another panics
+				for _, post := range postRecordersAndInterceptors {
+					defer post()
 				}
 			}
 		}
@@ -237,32 +261,18 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		}
 	}
 	// === end check mock and interceptors ===
-	if !mocked {
-		if depth > 1 {
-			// when stack is trapping, only allow pc-related
-			// mock and recorders to run
-			// no tracing and general interceptors can run
-			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
-				// ok=true indicates not call old function
-				return callRecorderWithDepth, ok
-			}
-			return callRecorderWithDepth, false
-		}
-
-		if !allowTracingThisEntry {
-			// without tracing, mock becomes simpler
-			if mock != nil {
-				ok := mock(funcInfo, recvPtr, args, results)
+	if depth > 1 || !allowTracingThisEntry {
+		// when stack is trapping, only allow pc-related
+		// mock and recorders to run
+		// no tracing and general interceptors can run
+		// and without tracing, mock becomes simpler
+		if !mocked && mock != nil {
+			callHook(func() {
 				// ok=true indicates not call old function
-				return callRecorderWithDepth, ok
-			}
-			return callRecorderWithDepth, false
-		}
-	} else {
-		if !allowTracingThisEntry {
-			return callRecorderWithDepth, true
+				mocked = mock(funcInfo, recvPtr, args, results)
+			})
 		}
+		return callRecorderWithDepth, mocked
 	}
 
 	// === init tracing stacks ===
@@ -342,15 +352,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
-	post := func() {
-		xgo_runtime.GetG().IncTrappingDepth()
-		defer xgo_runtime.GetG().DecTrappingDepth()
-
-		// NOTE: this defer might be executed on system stack
-		// so cannot defer
-		if postRecorder != nil {
-			postRecorder()
-		}
+	finish := func(pe interface{}, retpc uintptr) {
 		// on Windows, short stack might resolve to same
 		// nanosecond
 		// see https://github.com/xhd2015/xgo/issues/307
@@ -363,7 +365,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		var hasPanic bool
 		var panicLine int
 		var errStr string
-		if pe, retpc := xgo_runtime.XgoPeekPanic(); pe != nil {
+		if pe != nil {
 			hasPanic = true
 			// frame:
 			//   0: trap.trap
@@ -394,7 +396,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			//      doThingsPanic()  <-- this reported
 			//    }
 			callerPCs := make([]uintptr, 10)
-			npc := runtime.Callers(2, callerPCs)
+			npc := runtime.Callers(3, callerPCs)
 			callerPCs = callerPCs[:npc]
 			// check which pc matches
 			for _, pc := range callerPCs {
@@ -431,6 +433,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 			}
 		})
 		if isStartTracing {
+			defer stackData.endTracing(prevStk)
 			exportedStack := stack.Export(stk, 0)
 			if isTesting {
 				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
@@ -455,14 +458,30 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					}
 				}
 			}
-			stackData.endTracing(prevStk)
+		}
+	}
+	post := func() {
+		xgo_runtime.GetG().IncTrappingDepth()
+		defer xgo_runtime.GetG().DecTrappingDepth()
+
+		pe, retpc := xgo_runtime.XgoPeekPanic()
+		// the entry finishes even if a post hook panics
+		defer finish(pe, retpc)
+		if postRecorder != nil {
+			postRecorder()
 		}
 	}
 	if mocked {
 		hitMock = true
 		return post, true
 	} else if mock != nil {
-		hitMock = mock(funcInfo, recvPtr, args, results)
+		leave = func() {
+			hitMock = true
+			post()
+		}
+		callHook(func() {
+			hitMock = mock(funcInfo, recvPtr, args, results)
+		})
 		return post, hitMock
 	}
 	return post, false
-- 
2.43.0


From 59310e4b5745c2991ab2860bdad70f9de044741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 13/55] fix: calls that return normally while another function
 panics are not recorded as panicking

---
 .../asset/runtime_gen/internal/trap/trap.go   | 28 ++++++++++++++++++-
 runtime/internal/trap/trap.go                 | 28 ++++++++++++++++++-
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index 40f3cce..a3aa90f 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
+	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -352,6 +353,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
+	var mockPanicked bool
 	finish := func(pe interface{}, retpc uintptr) {
 		// on Windows, short stack might resolve to same
 		// nanosecond
@@ -464,7 +466,11 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		xgo_runtime.GetG().IncTrappingDepth()
 		defer xgo_runtime.GetG().DecTrappingDepth()
 
-		pe, retpc := xgo_runtime.XgoPeekPanic()
+		var pe interface{}
+		var retpc uintptr
+		if mockPanicked || isUnwinding() {
+			pe, retpc = xgo_runtime.XgoPeekPanic()
+		}
 		// the entry finishes even if a post hook panics
 		defer finish(pe, retpc)
 		if postRecorder != nil {
@@ -477,6 +483,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	} else if mock != nil {
 		leave = func() {
 			hitMock = true
+			mockPanicked = true
 			post()
 		}
 		callHook(func() {
@@ -487,6 +494,25 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// isUnwinding tells whether the calling deferred function is run by
+// a panic. It is run by a normal return when called by a function that
+// is itself deferred and runs while another function panics.
+func isUnwinding() bool {
+	var pcs [8]uintptr
+	// skip runtime.Callers, isUnwinding and the deferred function
+	n := runtime.Callers(3, pcs[:])
+	frames := runtime.CallersFrames(pcs[:n])
+	for {
+		frame, more := frames.Next()
+		if frame.Function == "runtime.gopanic" {
+			return true
+		}
+		if !more || !strings.HasPrefix(frame.Function, "runtime.") {
+			return false
+		}
+	}
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index 40f3cce..a3aa90f 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"runtime"
+	"strings"
 	"sync/atomic"
 	"testing"
 	"time"
@@ -352,6 +353,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	})
 
 	var hitMock bool
+	var mockPanicked bool
 	finish := func(pe interface{}, retpc uintptr) {
 		// on Windows, short stack might resolve to same
 		// nanosecond
@@ -464,7 +466,11 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		xgo_runtime.GetG().IncTrappingDepth()
 		defer xgo_runtime.GetG().DecTrappingDepth()
 
-		pe, retpc := xgo_runtime.XgoPeekPanic()
+		var pe interface{}
+		var retpc uintptr
+		if mockPanicked || isUnwinding() {
+			pe, retpc = xgo_runtime.XgoPeekPanic()
+		}
 		// the entry finishes even if a post hook panics
 		defer finish(pe, retpc)
 		if postRecorder != nil {
@@ -477,6 +483,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	} else if mock != nil {
 		leave = func() {
 			hitMock = true
+			mockPanicked = true
 			post()
 		}
 		callHook(func() {
@@ -487,6 +494,25 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 	return post, false
 }
 
+// isUnwinding tells whether the calling deferred function is run by
+// a panic. It is run by a normal return when called by a function that
+// is itself deferred and runs while another function panics.
+func isUnwinding() bool {
+	var pcs [8]uintptr
+	// skip runtime.Callers, isUnwinding and the deferred function
+	n := runtime.Callers(3, pcs[:])
+	frames := runtime.CallersFrames(pcs[:n])
+	for {
+		frame, more := frames.Next()
+		if frame.Function == "runtime.gopanic" {
+			return true
+		}
+		if !more || !strings.HasPrefix(frame.Function, "runtime.") {
+			return false
+		}
+	}
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
-- 
2.43.0


From 911a81f915c7f5f711824b206b2beca9e234dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 14/55] fix: interceptors of variables abort and leave as those
 of functions

---
 .../asset/runtime_gen/internal/trap/var.go    | 25 +++++++++++++------
 runtime/internal/trap/var.go                  | 25 +++++++++++++------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index 4e724e6..c038a7e 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -108,11 +108,15 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
+	var mocked bool
 	for _, recorder := range recorders {
 		recorder := recorder // captured by the post closure
 		var data interface{}
 		if recorder.pre != nil {
-			data, _ = recorder.pre(funcInfo, res)
+			data, mocked = recorder.pre(funcInfo, res)
+			if mocked {
+				break
+			}
 		}
 		if recorder.post != nil {
 			postRecorders = append(postRecorders, func() {
@@ -123,10 +127,16 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		if mocked {
+			break
+		}
 		interceptor := interceptor // captured by the post closure
 		var data interface{}
 		if interceptor.pre != nil {
-			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
+			data, mocked = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
+			if mocked {
+				break
+			}
 		}
 		if interceptor.post != nil {
 			postInterceptors = append(postInterceptors, func() {
@@ -135,15 +145,16 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 		}
 	}
 
-	if mock != nil {
+	if mock != nil && !mocked {
 		mock(funcInfo, mockRes)
 	}
 
-	for _, recorder := range postRecorders {
-		recorder()
+	// reversed, same as functions
+	for i := len(postInterceptors) - 1; i >= 0; i-- {
+		postInterceptors[i]()
 	}
-	for _, interceptor := range postInterceptors {
-		interceptor()
+	for i := len(postRecorders) - 1; i >= 0; i-- {
+		postRecorders[i]()
 	}
 
 	if !tracing {
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index 4e724e6..c038a7e 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -108,11 +108,15 @@ func trapVarPtr(infoPtr unsafe.Pointer, varAddr interface{}, res interface{}) {
 
 func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, tracing bool, res interface{}, recorders []*varRecordHolder, interceptors []*recorderHolder, mock func(fnInfo *core.FuncInfo, res interface{}), mockRes interface{}) {
 	var postRecorders []func()
+	var mocked bool
 	for _, recorder := range recorders {
 		recorder := recorder // captured by the post closure
 		var data interface{}
 		if recorder.pre != nil {
-			data, _ = recorder.pre(funcInfo, res)
+			data, mocked = recorder.pre(funcInfo, res)
+			if mocked {
+				break
+			}
 		}
 		if recorder.post != nil {
 			postRecorders = append(postRecorders, func() {
@@ -123,10 +127,16 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 
 	var postInterceptors []func()
 	for _, interceptor := range interceptors {
+		if mocked {
+			break
+		}
 		interceptor := interceptor // captured by the post closure
 		var data interface{}
 		if interceptor.pre != nil {
-			data, _ = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
+			data, mocked = interceptor.pre(funcInfo, nil, nil, []interface{}{res})
+			if mocked {
+				break
+			}
 		}
 		if interceptor.post != nil {
 			postInterceptors = append(postInterceptors, func() {
@@ -135,15 +145,16 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 		}
 	}
 
-	if mock != nil {
+	if mock != nil && !mocked {
 		mock(funcInfo, mockRes)
 	}
 
-	for _, recorder := range postRecorders {
-		recorder()
+	// reversed, same as functions
+	for i := len(postInterceptors) - 1; i >= 0; i-- {
+		postInterceptors[i]()
 	}
-	for _, interceptor := range postInterceptors {
-		interceptor()
+	for i := len(postRecorders) - 1; i >= 0; i-- {
+		postRecorders[i]()
 	}
 
 	if !tracing {
-- 
2.43.0


From 851d9ff07ad839cf9cb8f6d7efde403b0218259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 15/55] fix: tracing a call whose error panics in Error() no
 longer panics

---
 cmd/xgo/asset/runtime_gen/internal/trap/trap.go | 3 ++-
 runtime/internal/trap/trap.go                   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index a3aa90f..e633ab9 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -415,7 +415,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
 		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
-			errStr = resErr.Error()
+			// Sprint tolerates an Error() that panics, e.g. of a nil pointer
+			errStr = fmt.Sprint(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index a3aa90f..e633ab9 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -415,7 +415,8 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
 		resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(newStructValue(resultNamesNoErr, resultsNoErr)))
 		if !hasPanic && resErr != nil {
-			errStr = resErr.Error()
+			// Sprint tolerates an Error() that panics, e.g. of a nil pointer
+			errStr = fmt.Sprint(resErr)
 		}
 
 		// Relative end time outside lock (time methods may trap / deadlock).
-- 
2.43.0


From e0d75fa9c04cdcda97badb0a9ff786099487289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 16/55] fix: goroutines started by a traced goroutine outside
 any call appear in the trace

---
 cmd/xgo/asset/runtime_gen/internal/stack/stack.go | 8 +++++---
 runtime/internal/stack/stack.go                   | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
index d4e1888..4bca147 100755
--- a/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
+++ b/cmd/xgo/asset/runtime_gen/internal/stack/stack.go
@@ -159,15 +159,17 @@ func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		// started by a goroutine that is not inside any recorded call
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
diff --git a/runtime/internal/stack/stack.go b/runtime/internal/stack/stack.go
index d4e1888..4bca147 100644
--- a/runtime/internal/stack/stack.go
+++ b/runtime/internal/stack/stack.go
@@ -159,15 +159,17 @@ func (c *Stack) AppendGoChild(beginNs int64, getStack func() *Stack) {
 	}
 	c.mu.Lock()
 	defer c.mu.Unlock()
-	if c.Top == nil {
-		return
-	}
 	child := &Entry{
 		BeginNs:  beginNs,
 		Go:       true,
 		FuncName: "go",
 		GetStack: getStack,
 	}
+	if c.Top == nil {
+		// started by a goroutine that is not inside any recorded call
+		c.Roots = append(c.Roots, child)
+		return
+	}
 	c.Top.Children = append(c.Top.Children, child)
 }
 
-- 
2.43.0


From 01d8804a00141c84f6bbea843e103b8c6580410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 17/55] fix: goroutines of the go runtime do not inherit traces
 and mocks

---
 cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt    | 6 ++++++
 cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt    | 6 ++++++
 cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt    | 6 ++++++
 cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt    | 6 ++++++
 .../asset/runtime_gen/internal/runtime/xgo_trap_template.go | 6 ++++++
 patches/go1.24/src/runtime/xgo_trap.go                      | 6 ++++++
 patches/go1.25/src/runtime/xgo_trap.go                      | 6 ++++++
 patches/go1.26/src/runtime/xgo_trap.go                      | 6 ++++++
 patches/go1.27/src/runtime/xgo_trap.go                      | 6 ++++++
 runtime/internal/runtime/xgo_trap_template.go               | 6 ++++++
 10 files changed, 60 insertions(+)

diff --git a/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
index a1b03fe..6ac91c3 100755
--- a/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.24/src/runtime/xgo_trap.go.txt
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
index a1b03fe..6ac91c3 100755
--- a/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.25/src/runtime/xgo_trap.go.txt
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
index a1b03fe..6ac91c3 100755
--- a/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.26/src/runtime/xgo_trap.go.txt
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt b/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
index a1b03fe..6ac91c3 100755
--- a/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
+++ b/cmd/xgo/asset/patches/go1.27/src/runtime/xgo_trap.go.txt
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go b/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
index c23797e..77c54da 100755
--- a/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
+++ b/cmd/xgo/asset/runtime_gen/internal/runtime/xgo_trap_template.go
@@ -267,6 +267,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/patches/go1.24/src/runtime/xgo_trap.go b/patches/go1.24/src/runtime/xgo_trap.go
index a1b03fe..6ac91c3 100644
--- a/patches/go1.24/src/runtime/xgo_trap.go
+++ b/patches/go1.24/src/runtime/xgo_trap.go
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/patches/go1.25/src/runtime/xgo_trap.go b/patches/go1.25/src/runtime/xgo_trap.go
index a1b03fe..6ac91c3 100644
--- a/patches/go1.25/src/runtime/xgo_trap.go
+++ b/patches/go1.25/src/runtime/xgo_trap.go
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/patches/go1.26/src/runtime/xgo_trap.go b/patches/go1.26/src/runtime/xgo_trap.go
index a1b03fe..6ac91c3 100644
--- a/patches/go1.26/src/runtime/xgo_trap.go
+++ b/patches/go1.26/src/runtime/xgo_trap.go
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/patches/go1.27/src/runtime/xgo_trap.go b/patches/go1.27/src/runtime/xgo_trap.go
index a1b03fe..6ac91c3 100644
--- a/patches/go1.27/src/runtime/xgo_trap.go
+++ b/patches/go1.27/src/runtime/xgo_trap.go
@@ -266,6 +266,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
diff --git a/runtime/internal/runtime/xgo_trap_template.go b/runtime/internal/runtime/xgo_trap_template.go
index c23797e..77c54da 100644
--- a/runtime/internal/runtime/xgo_trap_template.go
+++ b/runtime/internal/runtime/xgo_trap_template.go
@@ -267,6 +267,12 @@ func __xgo_callback_on_create_g(curg *g, newg *g) {
 	if len(__xgo_on_create_g_callbacks) == 0 {
 		return
 	}
+	// goroutines of the runtime itself, such as gc workers, inherit
+	// nothing. They can be started while the current goroutine holds
+	// locks(gc triggered by an allocation), where callbacks must not run.
+	if isSystemGoroutine(newg, false) {
+		return
+	}
 	if curg == nil {
 		return
 	}
-- 
2.43.0


From e92c7fb43b6b3e91cc580da9a25ed73526ab954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 18/55] fix: coroutines no longer inherit state of an ended
 coroutine

---
 .../go1.24/src/runtime/proc.go.xgo.patch        |  9 +++++++++
 .../go1.25/src/runtime/proc.go.xgo.patch        |  9 +++++++++
 .../go1.26/src/runtime/proc.go.xgo.patch        |  9 +++++++++
 .../go1.27/src/runtime/proc.go.xgo.patch        |  9 +++++++++
 instrument/instrument_runtime/proc.go           | 17 +++++++++++++++++
 patches/go1.24/src/runtime/proc.go.xgo.patch    |  9 +++++++++
 patches/go1.25/src/runtime/proc.go.xgo.patch    |  9 +++++++++
 patches/go1.26/src/runtime/proc.go.xgo.patch    |  9 +++++++++
 patches/go1.27/src/runtime/proc.go.xgo.patch    |  9 +++++++++
 9 files changed, 89 insertions(+)

diff --git a/cmd/xgo/asset/patches/go1.24/src/runtime/proc.go.xgo.patch b/cmd/xgo/asset/patches/go1.24/src/runtime/proc.go.xgo.patch
index 047d7ee..33ebf44 100755
--- a/cmd/xgo/asset/patches/go1.24/src/runtime/proc.go.xgo.patch
+++ b/cmd/xgo/asset/patches/go1.24/src/runtime/proc.go.xgo.patch
@@ -46,3 +46,12 @@ goto func main
 match close(main_init_done)
 insert_before __xgo_callback_on_init_finished();
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
diff --git a/cmd/xgo/asset/patches/go1.25/src/runtime/proc.go.xgo.patch b/cmd/xgo/asset/patches/go1.25/src/runtime/proc.go.xgo.patch
index 9f785f8..72ed5ef 100755
--- a/cmd/xgo/asset/patches/go1.25/src/runtime/proc.go.xgo.patch
+++ b/cmd/xgo/asset/patches/go1.25/src/runtime/proc.go.xgo.patch
@@ -55,3 +55,12 @@ match close(main_init_done)
 insert_before __xgo_callback_on_init_finished()
 newline
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
diff --git a/cmd/xgo/asset/patches/go1.26/src/runtime/proc.go.xgo.patch b/cmd/xgo/asset/patches/go1.26/src/runtime/proc.go.xgo.patch
index 9f785f8..72ed5ef 100755
--- a/cmd/xgo/asset/patches/go1.26/src/runtime/proc.go.xgo.patch
+++ b/cmd/xgo/asset/patches/go1.26/src/runtime/proc.go.xgo.patch
@@ -55,3 +55,12 @@ match close(main_init_done)
 insert_before __xgo_callback_on_init_finished()
 newline
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
diff --git a/cmd/xgo/asset/patches/go1.27/src/runtime/proc.go.xgo.patch b/cmd/xgo/asset/patches/go1.27/src/runtime/proc.go.xgo.patch
index dbeeb47..1797d42 100755
--- a/cmd/xgo/asset/patches/go1.27/src/runtime/proc.go.xgo.patch
+++ b/cmd/xgo/asset/patches/go1.27/src/runtime/proc.go.xgo.patch
@@ -56,3 +56,12 @@ match close(mainInitDoneChan)
 insert_before __xgo_callback_on_init_finished()
 newline
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
diff --git a/instrument/instrument_runtime/proc.go b/instrument/instrument_runtime/proc.go
index c78bfe2..b29bf81 100644
--- a/instrument/instrument_runtime/proc.go
+++ b/instrument/instrument_runtime/proc.go
@@ -112,6 +112,23 @@ func instrumentNewGroutineV2(goVersion *goinfo.GoVersion, procContent string) (s
 		patch.UpdatePosition_Replace,
 		"if false { // xgo: race setup moved after create callback (#341)",
 	)
+
+	// Clear state left by a previous owner of a reused g. newproc clears it in
+	// the create callback, but coroutines(iter.Pull, go1.23+) come directly
+	// from newproc1 and end without goexit1.
+	if goVersion.Major == goinfo.GO_MAJOR_1 && goVersion.Minor >= goinfo.GO_VERSION_23 {
+		procContent = patch.UpdateContent(procContent,
+			"/*<begin xgo_proc_newproc1_clear>*/",
+			"/*<end xgo_proc_newproc1_clear>*/",
+			[]string{
+				"func newproc1(",
+				"newg.parentGoid = callergp.goid",
+			},
+			1,
+			patch.UpdatePosition_Before,
+			"newg.__xgo_g = __xgo_g{};",
+		)
+	}
 	return procContent, nil
 }
 
diff --git a/patches/go1.24/src/runtime/proc.go.xgo.patch b/patches/go1.24/src/runtime/proc.go.xgo.patch
index 047d7ee..33ebf44 100644
--- a/patches/go1.24/src/runtime/proc.go.xgo.patch
+++ b/patches/go1.24/src/runtime/proc.go.xgo.patch
@@ -46,3 +46,12 @@ goto func main
 match close(main_init_done)
 insert_before __xgo_callback_on_init_finished();
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
diff --git a/patches/go1.25/src/runtime/proc.go.xgo.patch b/patches/go1.25/src/runtime/proc.go.xgo.patch
index 9f785f8..72ed5ef 100644
--- a/patches/go1.25/src/runtime/proc.go.xgo.patch
+++ b/patches/go1.25/src/runtime/proc.go.xgo.patch
@@ -55,3 +55,12 @@ match close(main_init_done)
 insert_before __xgo_callback_on_init_finished()
 newline
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
diff --git a/patches/go1.26/src/runtime/proc.go.xgo.patch b/patches/go1.26/src/runtime/proc.go.xgo.patch
index 9f785f8..72ed5ef 100644
--- a/patches/go1.26/src/runtime/proc.go.xgo.patch
+++ b/patches/go1.26/src/runtime/proc.go.xgo.patch
@@ -55,3 +55,12 @@ match close(main_init_done)
 insert_before __xgo_callback_on_init_finished()
 newline
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
diff --git a/patches/go1.27/src/runtime/proc.go.xgo.patch b/patches/go1.27/src/runtime/proc.go.xgo.patch
index dbeeb47..1797d42 100644
--- a/patches/go1.27/src/runtime/proc.go.xgo.patch
+++ b/patches/go1.27/src/runtime/proc.go.xgo.patch
@@ -56,3 +56,12 @@ match close(mainInitDoneChan)
 insert_before __xgo_callback_on_init_finished()
 newline
 </patch>
+
+<patch xgo_proc_newproc1_clear>
+# Description: Clear state left by a previous owner of a reused g. newproc
+# clears it in the create callback, but coroutines(iter.Pull) come directly
+# from newproc1 and end without goexit1.
+goto func newproc1
+match newg.parentGoid = callergp.goid
+insert_before newg.__xgo_g = __xgo_g{};
+</patch>
-- 
2.43.0


From e5a9c4dfa190eecfede6d024186d964fb9c1fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 19/55] fix: functab: find generic functions of packages with
 dotted path

---
 cmd/xgo/asset/runtime_gen/functab/functab.go | 2 ++
 runtime/functab/functab.go                   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/xgo/asset/runtime_gen/functab/functab.go b/cmd/xgo/asset/runtime_gen/functab/functab.go
index a046de0..ccce6da 100755
--- a/cmd/xgo/asset/runtime_gen/functab/functab.go
+++ b/cmd/xgo/asset/runtime_gen/functab/functab.go
@@ -124,6 +124,8 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
+	// dots in the last path element are escaped inside symbol names
+	pkgPath = strings.ReplaceAll(pkgPath, "%2e", ".")
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
diff --git a/runtime/functab/functab.go b/runtime/functab/functab.go
index a046de0..ccce6da 100644
--- a/runtime/functab/functab.go
+++ b/runtime/functab/functab.go
@@ -124,6 +124,8 @@ func GetTypeMethods(typ reflect.Type) map[string]*core.FuncInfo {
 
 func getInterfaceOrGenericByFullName(fullName string) *core.FuncInfo {
 	pkgPath, recvName, recvPtr, typeGeneric, funcGeneric, funcName := core.ParseFuncName(fullName)
+	// dots in the last path element are escaped inside symbol names
+	pkgPath = strings.ReplaceAll(pkgPath, "%2e", ".")
 	if typeGeneric != "" || funcGeneric != "" {
 		// generic, currently does not solve generic interface
 		idName := funcName
-- 
2.43.0


From 4b1876319c50217d31a5e4d518b8d7e8a1ef12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 20/55] fix: instrument: register the line of a grouped
 variable itself

---
 instrument/instrument_reg/instrument_reg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrument/instrument_reg/instrument_reg.go b/instrument/instrument_reg/instrument_reg.go
index 8e2cd77..70eadfe 100644
--- a/instrument/instrument_reg/instrument_reg.go
+++ b/instrument/instrument_reg/instrument_reg.go
@@ -96,7 +96,7 @@ func buildCompilerExtra(fset *token.FileSet, file *edit.File) *compiler_extra.Fi
 		})
 	}
 	for _, varInfo := range file.TrapVars {
-		pos := varInfo.Decl.Decl.Pos()
+		pos := varInfo.Decl.Ident.Pos()
 		lineNum := fset.Position(pos).Line
 		decls.TrapVars = append(decls.TrapVars, compiler_extra.VarInfo{
 			Name:    varInfo.Name,
-- 
2.43.0


From 3ca2eb239ec78bcd4c53b3d37bb96147214dfa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 21/55] fix: patch: register the receiver name of dependency
 methods

---
 cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go | 2 +-
 patch/syntax/syntax.go                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go b/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
index 1070964..aaa7879 100755
--- a/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
+++ b/cmd/xgo/asset/compiler_patch_gen/syntax/syntax.go
@@ -156,7 +156,7 @@ func convertFuncDecl(funcDecl *info.DeclInfo) *compiler_extra.FuncInfo {
 	var receiver *compiler_extra.Field
 	if funcDecl.RecvTypeName != "" {
 		receiver = &compiler_extra.Field{
-			Name: funcDecl.RecvTypeName,
+			Name: funcDecl.RecvName,
 		}
 	}
 	return &compiler_extra.FuncInfo{
diff --git a/patch/syntax/syntax.go b/patch/syntax/syntax.go
index 1070964..aaa7879 100644
--- a/patch/syntax/syntax.go
+++ b/patch/syntax/syntax.go
@@ -156,7 +156,7 @@ func convertFuncDecl(funcDecl *info.DeclInfo) *compiler_extra.FuncInfo {
 	var receiver *compiler_extra.Field
 	if funcDecl.RecvTypeName != "" {
 		receiver = &compiler_extra.Field{
-			Name: funcDecl.RecvTypeName,
+			Name: funcDecl.RecvName,
 		}
 	}
 	return &compiler_extra.FuncInfo{
-- 
2.43.0


From f8ed2d3348c4e3f516ca242fc0d2b125c607c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 22/55] fix: pattern: match the whole segment and pattern

A segment matched as soon as its first literal did, so a*b matched ac, a*
did not match ab in full matches, and the prefix form accepted siblings
(integration_test excluded integration_test2).
---
 patch/legacy/match/pattern.go | 26 ++++++++++----------------
 support/pattern/pattern.go    | 26 ++++++++++----------------
 2 files changed, 20 insertions(+), 32 deletions(-)

diff --git a/patch/legacy/match/pattern.go b/patch/legacy/match/pattern.go
index 3a2f27a..bb61576 100755
--- a/patch/legacy/match/pattern.go
+++ b/patch/legacy/match/pattern.go
@@ -158,51 +158,45 @@ func doMatch(exprs []expr, segments []string, prefix bool) bool {
 		return doMatch(exprs[1:], segments, prefix)
 	}
 	if len(segments) == 0 {
-		return expr.matchEmpty()
+		return expr.matchEmpty() && doMatch(exprs[1:], segments, prefix)
 	}
 
-	if !expr.matchNoDoubleStar(segments[0], prefix) {
+	if !expr.matchNoDoubleStar(segments[0]) {
 		return false
 	}
 	return doMatch(exprs[1:], segments[1:], prefix)
 }
 
-func (c expr) matchNoDoubleStar(name string, prefix bool) bool {
-	return c.matchRunesFrom(0, prefix, []rune(name))
+func (c expr) matchNoDoubleStar(name string) bool {
+	return c.matchRunesFrom(0, []rune(name))
 }
 
 // f(L, i, runes,j ) -> if L[i]==="*", f(L,i+1, runes,j) or f(L,i,runes,j+1)
-func (c expr) matchRunesFrom(i int, prefix bool, runes []rune) bool {
+func (c expr) matchRunesFrom(i int, runes []rune) bool {
 	if i >= len(c.elements) {
 		return len(runes) == 0
 	}
 	part := c.elements[i]
 	switch part.kind {
 	case kind_star:
-		if c.matchRunesFrom(i+1, prefix, runes) {
+		if c.matchRunesFrom(i+1, runes) {
 			return true
 		}
 		if len(runes) > 0 {
-			return c.matchRunesFrom(i, prefix, runes[1:])
+			return c.matchRunesFrom(i, runes[1:])
 		}
 		return false
 	case kind_plain_str:
 		n := len(part.runes)
-		if !prefix {
-			if n != len(runes) {
-				return false
-			}
-		} else {
-			if n > len(runes) {
-				return false
-			}
+		if n > len(runes) {
+			return false
 		}
 		for j := 0; j < n; j++ {
 			if runes[j] != part.runes[j] {
 				return false
 			}
 		}
-		return true
+		return c.matchRunesFrom(i+1, runes[n:])
 	default:
 		panic(fmt.Errorf("unknown expr kind: %v", part.kind))
 	}
diff --git a/support/pattern/pattern.go b/support/pattern/pattern.go
index 1061813..7b9803b 100644
--- a/support/pattern/pattern.go
+++ b/support/pattern/pattern.go
@@ -156,51 +156,45 @@ func doMatch(exprs []expr, segments []string, prefix bool) bool {
 		return doMatch(exprs[1:], segments, prefix)
 	}
 	if len(segments) == 0 {
-		return expr.matchEmpty()
+		return expr.matchEmpty() && doMatch(exprs[1:], segments, prefix)
 	}
 
-	if !expr.matchNoDoubleStar(segments[0], prefix) {
+	if !expr.matchNoDoubleStar(segments[0]) {
 		return false
 	}
 	return doMatch(exprs[1:], segments[1:], prefix)
 }
 
-func (c expr) matchNoDoubleStar(name string, prefix bool) bool {
-	return c.matchRunesFrom(0, prefix, []rune(name))
+func (c expr) matchNoDoubleStar(name string) bool {
+	return c.matchRunesFrom(0, []rune(name))
 }
 
 // f(L, i, runes,j ) -> if L[i]==="*", f(L,i+1, runes,j) or f(L,i,runes,j+1)
-func (c expr) matchRunesFrom(i int, prefix bool, runes []rune) bool {
+func (c expr) matchRunesFrom(i int, runes []rune) bool {
 	if i >= len(c.elements) {
 		return len(runes) == 0
 	}
 	part := c.elements[i]
 	switch part.kind {
 	case kind_star:
-		if c.matchRunesFrom(i+1, prefix, runes) {
+		if c.matchRunesFrom(i+1, runes) {
 			return true
 		}
 		if len(runes) > 0 {
-			return c.matchRunesFrom(i, prefix, runes[1:])
+			return c.matchRunesFrom(i, runes[1:])
 		}
 		return false
 	case kind_plain_str:
 		n := len(part.runes)
-		if !prefix {
-			if n != len(runes) {
-				return false
-			}
-		} else {
-			if n > len(runes) {
-				return false
-			}
+		if n > len(runes) {
+			return false
 		}
 		for j := 0; j < n; j++ {
 			if runes[j] != part.runes[j] {
 				return false
 			}
 		}
-		return true
+		return c.matchRunesFrom(i+1, runes[n:])
 	default:
 		panic(fmt.Errorf("unknown expr kind: %v", part.kind))
 	}
-- 
2.43.0


From 308bb05693c0532e20e2b6a4d37bc35754925319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 23/55] fix: line edit: keep the order of edits of one line

sort.Slice is not stable and its comparison of indices does not make it so.
---
 support/transform/edit/line/line.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/support/transform/edit/line/line.go b/support/transform/edit/line/line.go
index 9bff9e9..96db85c 100644
--- a/support/transform/edit/line/line.go
+++ b/support/transform/edit/line/line.go
@@ -45,12 +45,8 @@ func (c *Edit) Replace(lineNum int, id string, lines []string) {
 
 func (c *Edit) Apply(lines []string) ([]string, error) {
 	// sort edits to apply sequentially
-	sort.Slice(c.edits, func(i, j int) bool {
-		d := c.edits[i].line - c.edits[j].line
-		if d == 0 {
-			return i < j
-		}
-		return d < 0
+	sort.SliceStable(c.edits, func(i, j int) bool {
+		return c.edits[i].line < c.edits[j].line
 	})
 	n := len(lines)
 	newLines := make([]string, 0, n)
-- 
2.43.0


From 0a3f0a46fb7c919901305cfb122c7823e6c61d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 24/55] fix: patch: put every edit of a patch at its own
 position

A single insert mode was shared by all edits of a block, edits were applied
in the order of the commands instead of their offsets, edits without a cursor
and directives that do not exist were dropped silently.
---
 instrument/patch/apply_engine.go | 330 ++++++++++++++++---------------
 1 file changed, 174 insertions(+), 156 deletions(-)

diff --git a/instrument/patch/apply_engine.go b/instrument/patch/apply_engine.go
index 16ac091..dd1ec6a 100644
--- a/instrument/patch/apply_engine.go
+++ b/instrument/patch/apply_engine.go
@@ -5,34 +5,38 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"sort"
 	"strings"
 )
 
 // cursor represents a position within a Go source file.
 type cursor struct {
 	offset    int  // byte offset for insert_before
-	endOffset int  // byte offset for insert_after / end of replace range
+	endOffset int  // byte offset for insert_after
 	isReplace bool // set by find_for_replace
-}
 
-// edit represents a single edit operation collected during patch application.
-type edit struct {
-	seq       int    // sequence number (incremented per positioning command)
-	offset    int    // insertion offset
-	oldEnd    int    // for replace: end offset of old content
-	newText   string // the text to insert/replace with
-	oldText   string // for replace: the original text (for marker old tag)
-	isReplace bool
+	replaceEnd int  // end of the range selected by find_for_replace
+	nextLine   bool // endOffset was moved by insert_after_line
 }
 
-// editGroup represents all edits at a single sequence number (cursor position).
+// editKind tells the edits of one cursor apart, in the order of their text
+// when they are at the same offset.
+type editKind int
+
+const (
+	editBefore editKind = iota
+	editReplace
+	editAfter
+)
+
+// editGroup represents the edits of one kind at a single sequence number
+// (cursor position) and offset.
 type editGroup struct {
-	seq       int
-	offset    int    // insertion point for insert_before
-	insertEnd int    // insertion point for insert_after
-	segments  []string
-	isReplace bool
-	oldText   string // for replace: the original text
+	seq      int
+	kind     editKind
+	offset   int // insertion point, or start of the replaced text
+	end      int // end of the replaced text, equal to offset if nothing is replaced
+	segments []string
 }
 
 // applyPatch applies a single PatchBlock to the original Go source text.
@@ -47,7 +51,6 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 		original: original,
 		fset:     fset,
 		astFile:  astFile,
-		groups:   make(map[int]*editGroup),
 	}
 
 	for _, cmd := range block.Commands {
@@ -59,7 +62,7 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
+			state.lastGroup = nil
 
 		case CmdMatch:
 			c, err := evalMatch(state, cmd.SearchText, false)
@@ -68,7 +71,7 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
+			state.lastGroup = nil
 
 		case CmdFindForReplace:
 			c, err := evalMatch(state, cmd.SearchText, true)
@@ -77,31 +80,38 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			}
 			state.cursor = c
 			state.seq++
-			state.lastInsertMode = insertBefore
+			state.lastGroup = nil
 
 		case CmdInsertBefore:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_before requires text")
 			}
-			state.lastInsertMode = insertBefore
-			state.addSegment(cmd.EditText)
+			err := state.addSegment(editBefore, state.cursor.offset, state.cursor.offset, cmd.EditText)
+			if err != nil {
+				return "", fmt.Errorf("insert_before: %w", err)
+			}
 
 		case CmdInsertAfter:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_after requires text")
 			}
-			state.lastInsertMode = insertAfter
-			state.addSegment(cmd.EditText)
+			err := state.addSegment(editAfter, state.cursor.endOffset, state.cursor.endOffset, cmd.EditText)
+			if err != nil {
+				return "", fmt.Errorf("insert_after: %w", err)
+			}
 
 		case CmdInsertAfterLine:
 			if cmd.EditText == "" {
 				return "", fmt.Errorf("insert_after_line requires text")
 			}
-			if state.cursor.endOffset < len(state.original) && state.original[state.cursor.endOffset] == '\n' {
+			if !state.cursor.nextLine && state.cursor.endOffset < len(state.original) && state.original[state.cursor.endOffset] == '\n' {
 				state.cursor.endOffset++
 			}
-			state.lastInsertMode = insertAfter
-			state.addSegment(cmd.EditText)
+			state.cursor.nextLine = true
+			err := state.addSegment(editAfter, state.cursor.endOffset, state.cursor.endOffset, cmd.EditText)
+			if err != nil {
+				return "", fmt.Errorf("insert_after_line: %w", err)
+			}
 
 		case CmdReplace:
 			if cmd.EditText == "" {
@@ -110,11 +120,15 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			if !state.cursor.isReplace {
 				return "", fmt.Errorf("replace requires prior find_for_replace")
 			}
-			oldText := state.original[state.cursor.offset:state.cursor.endOffset]
-			state.lastInsertMode = insertBefore
-			state.addReplace(cmd.EditText, oldText)
+			err := state.addSegment(editReplace, state.cursor.offset, state.cursor.replaceEnd, cmd.EditText)
+			if err != nil {
+				return "", fmt.Errorf("replace: %w", err)
+			}
 
 		case CmdNewline:
+			if state.lastGroup == nil {
+				return "", fmt.Errorf("newline requires a prior edit")
+			}
 			state.addNewline()
 
 		case CmdCopyFunc:
@@ -122,176 +136,178 @@ func applyPatch(original string, block PatchBlock) (string, error) {
 			if err != nil {
 				return "", fmt.Errorf("copy_func %q: %w", cmd.CopySource, err)
 			}
-			state.appendContent = strings.TrimSuffix(copied, "\n")
+			if state.appendContent != "" {
+				state.appendContent += "\n"
+			}
+			state.appendContent += strings.TrimSuffix(copied, "\n")
 
 		case CmdReplaceDirective:
 			if cmd.SearchText == "" || cmd.CopyTarget == "" {
 				return "", fmt.Errorf("replace_directive requires old and new text")
 			}
-			state.directiveReplace = &directiveReplacement{
-				oldText: cmd.SearchText,
-				newText: cmd.CopyTarget,
+			err := state.addDirective(cmd.SearchText, cmd.CopyTarget)
+			if err != nil {
+				return "", fmt.Errorf("replace_directive: %w", err)
 			}
 		}
 	}
 
-	return state.applyEdits(block.Name), nil
+	return state.applyEdits(block.Name)
 }
 
-type insertMode int
-
-const (
-	insertBefore insertMode = iota
-	insertAfter
-)
-
 type applyState struct {
-	original       string
-	fset           *token.FileSet
-	astFile        *ast.File
-	cursor         cursor
-	seq            int
-	lastInsertMode insertMode
-
-	groups           map[int]*editGroup
-	appendContent    string
-	directiveReplace *directiveReplacement
+	original string
+	fset     *token.FileSet
+	astFile  *ast.File
+	cursor   cursor
+	seq      int
+
+	groups        []*editGroup
+	lastGroup     *editGroup // group of the last edit at the current cursor
+	directives    []*directiveReplacement
+	appendContent string
 }
 
 type directiveReplacement struct {
+	offset  int
 	oldText string
 	newText string
 }
 
-func (s *applyState) getGroup() *editGroup {
-	g, ok := s.groups[s.seq]
-	if !ok {
-		insertEnd := s.cursor.offset
-		if s.cursor.endOffset > insertEnd {
-			insertEnd = s.cursor.endOffset
-		}
-		g = &editGroup{
-			seq:       s.seq,
-			offset:    s.cursor.offset,
-			insertEnd: insertEnd,
+// addSegment adds text to the edits of the current cursor of the given kind.
+func (s *applyState) addSegment(kind editKind, offset int, end int, text string) error {
+	if s.seq == 0 {
+		return fmt.Errorf("requires a prior goto, match or find_for_replace")
+	}
+	for _, g := range s.groups {
+		if g.seq == s.seq && g.kind == kind && g.offset == offset {
+			g.segments = append(g.segments, text)
+			s.lastGroup = g
+			return nil
 		}
-		s.groups[s.seq] = g
 	}
-	return g
-}
-
-func (s *applyState) addSegment(text string) {
-	g := s.getGroup()
-	g.segments = append(g.segments, text)
-}
-
-func (s *applyState) addReplace(newText, oldText string) {
-	g := s.getGroup()
-	g.isReplace = true
-	g.oldText = oldText
-	g.segments = append(g.segments, newText)
+	s.lastGroup = &editGroup{
+		seq:      s.seq,
+		kind:     kind,
+		offset:   offset,
+		end:      end,
+		segments: []string{text},
+	}
+	s.groups = append(s.groups, s.lastGroup)
+	return nil
 }
 
 func (s *applyState) addNewline() {
-	g := s.getGroup()
 	// newline merges with the previous segment: "A" + newline → "A\n"
-	if len(g.segments) > 0 {
-		g.segments[len(g.segments)-1] += "\n"
+	g := s.lastGroup
+	g.segments[len(g.segments)-1] += "\n"
+}
+
+// addDirective finds the line that consists of the directive oldText
+func (s *applyState) addDirective(oldText string, newText string) error {
+	for i := 0; i < len(s.original); {
+		end := len(s.original)
+		if idx := strings.Index(s.original[i:], "\n"); idx >= 0 {
+			end = i + idx
+		}
+		if s.original[i:end] == oldText {
+			s.directives = append(s.directives, &directiveReplacement{
+				offset:  i,
+				oldText: oldText,
+				newText: newText,
+			})
+			return nil
+		}
+		i = end + 1
 	}
+	return fmt.Errorf("directive not found: %q", oldText)
 }
 
 // combineSegments combines text segments for an edit group.
 // For insert_before: segments are collected in insertion order, then applied
-// in reverse so the last written goes closest to original content.
+// in reverse, so the first written goes closest to original content.
 // For insert_after: segments are applied in forward order.
 // newline merges "\n" with the adjacent text segment, so it stays on the
 // correct side of the text in the final output.
 func (s *applyState) combineSegments(g *editGroup) string {
-	if g.isReplace {
+	if g.kind != editBefore {
 		return strings.Join(g.segments, "")
 	}
-
-	if len(g.segments) == 0 {
-		return ""
-	}
-
 	var buf strings.Builder
-	if s.lastInsertMode == insertBefore {
-		for i := len(g.segments) - 1; i >= 0; i-- {
-			buf.WriteString(g.segments[i])
-		}
-	} else {
-		for _, seg := range g.segments {
-			buf.WriteString(seg)
-		}
+	for i := len(g.segments) - 1; i >= 0; i-- {
+		buf.WriteString(g.segments[i])
 	}
-
 	return buf.String()
 }
 
-// applyEdits applies all collected edits and wraps them with markers.
-func (s *applyState) applyEdits(blockName string) string {
-	result := s.original
-
-	// Process edits in REVERSE offset order (highest offset first)
-	// to avoid position shifts when inserting text.
-	maxSeq := s.seq
-	for seq := maxSeq; seq >= 1; seq-- {
-		g, ok := s.groups[seq]
-		if !ok {
-			continue
-		}
+// splice is a replacement of original[offset:end]
+type splice struct {
+	offset int
+	end    int
+	text   string
+}
 
-		insertText := s.combineSegments(g)
-		if insertText == "" && !g.isReplace {
-			continue
+// applyEdits applies all collected edits and wraps them with markers.
+func (s *applyState) applyEdits(blockName string) (string, error) {
+	markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
+	markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
+
+	// edits at the same offset keep the order of their cursors, and at one
+	// cursor insert_before comes first and insert_after last
+	sort.SliceStable(s.groups, func(i, j int) bool {
+		a, b := s.groups[i], s.groups[j]
+		if a.seq != b.seq {
+			return a.seq < b.seq
 		}
-
-		if g.isReplace {
-			markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-			if g.oldText != "" {
-				markerBegin += fmt.Sprintf("/*old:%s*/", g.oldText)
-			}
-			markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-			wrapped := markerBegin + insertText + markerEnd
-
-			// Replace old content (from offset to oldEnd) with wrapped text
-			result = result[:g.offset] + wrapped + result[g.offset+len(g.oldText):]
-		} else {
-			markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-			markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-
-			if s.lastInsertMode == insertBefore || seq < maxSeq {
-				// insert_before: insert at offset
-				wrapped := markerBegin + insertText + markerEnd
-				result = result[:g.offset] + wrapped + result[g.offset:]
-			} else {
-				// insert_after: insert at insertEnd
-				wrapped := markerBegin + insertText + markerEnd
-				result = result[:g.insertEnd] + wrapped + result[g.insertEnd:]
-			}
+		return a.kind < b.kind
+	})
+
+	var splices []splice
+	for _, g := range s.groups {
+		begin := markerBegin
+		if g.end > g.offset {
+			begin += fmt.Sprintf("/*old:%s*/", s.original[g.offset:g.end])
 		}
+		splices = append(splices, splice{g.offset, g.end, begin + s.combineSegments(g) + markerEnd})
 	}
+	for _, dr := range s.directives {
+		annotation := fmt.Sprintf("/*<next-line-original %s>%s</next-line-original>*/", blockName, dr.oldText)
+		splices = append(splices, splice{dr.offset, dr.offset + len(dr.oldText), annotation + "\n" + dr.newText})
+	}
+	sort.SliceStable(splices, func(i, j int) bool {
+		a, b := splices[i], splices[j]
+		if a.offset != b.offset {
+			return a.offset < b.offset
+		}
+		// insert before the replaced text
+		return a.end == a.offset && b.end > b.offset
+	})
 
-	if s.appendContent != "" {
-		if !strings.HasSuffix(result, "\n") {
-			result += "\n"
+	var buf strings.Builder
+	last := 0
+	for _, sp := range splices {
+		if sp.offset < last {
+			return "", fmt.Errorf("overlapping edits at offset %d", sp.offset)
 		}
-		markerBegin := fmt.Sprintf("/*<begin %s>*/", blockName)
-		markerEnd := fmt.Sprintf("/*<end %s>*/", blockName)
-		result += markerBegin + s.appendContent + markerEnd
+		if strings.Contains(s.original[sp.offset:sp.end], "*/") {
+			return "", fmt.Errorf("cannot replace text that has \"*/\": %q", s.original[sp.offset:sp.end])
+		}
+		buf.WriteString(s.original[last:sp.offset])
+		buf.WriteString(sp.text)
+		last = sp.end
 	}
+	buf.WriteString(s.original[last:])
 
-	if s.directiveReplace != nil {
-		dr := s.directiveReplace
-		idx := strings.Index(result, dr.oldText)
-		if idx >= 0 {
-			annotation := fmt.Sprintf("/*<next-line-original %s>%s</next-line-original>*/", blockName, dr.oldText)
-			result = result[:idx] + annotation + "\n" + dr.newText + result[idx+len(dr.oldText):]
+	if s.appendContent != "" {
+		buf.WriteString(markerBegin)
+		// keep the added newline inside the markers, so that it is cleared with them
+		if !strings.HasSuffix(s.original, "\n") {
+			buf.WriteString("\n")
 		}
+		buf.WriteString(s.appendContent)
+		buf.WriteString(markerEnd)
 	}
-
-	return result
+	return buf.String(), nil
 }
 
 // evalGoto evaluates a goto command and returns a cursor positioned at the target.
@@ -536,9 +552,10 @@ func evalMatch(state *applyState, searchText string, forReplace bool) (cursor, e
 		if idx := strings.LastIndex(before, searchText); idx >= 0 {
 			offset := scopeStart + idx
 			return cursor{
-				offset:    offset,
-				endOffset: offset + len(searchText),
-				isReplace: true,
+				offset:     offset,
+				endOffset:  offset + len(searchText),
+				replaceEnd: offset + len(searchText),
+				isReplace:  true,
 			}, nil
 		}
 	}
@@ -553,9 +570,10 @@ func evalMatch(state *applyState, searchText string, forReplace bool) (cursor, e
 	endOffset := offset + len(searchText)
 
 	return cursor{
-		offset:    offset,
-		endOffset: endOffset,
-		isReplace: forReplace,
+		offset:     offset,
+		endOffset:  endOffset,
+		replaceEnd: endOffset,
+		isReplace:  forReplace,
 	}, nil
 }
 
-- 
2.43.0


From 484e8a413180ed4b644dbe186595428b12086a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 25/55] fix: patch: select the declaration that is named

goto func took a receiver whose text merely contains the given one, copy_func
took methods and did not rename generic functions, and opening, closing and
field could not follow each other in a struct.
---
 instrument/patch/apply_engine.go | 41 ++++++++++++++++++++++----------
 instrument/patch/apply_parse.go  |  4 ++++
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/instrument/patch/apply_engine.go b/instrument/patch/apply_engine.go
index dd1ec6a..14e25bb 100644
--- a/instrument/patch/apply_engine.go
+++ b/instrument/patch/apply_engine.go
@@ -399,10 +399,9 @@ func evalGotoFunc(state *applyState, rest string) (cursor, error) {
 				continue
 			}
 			// Use the original text to match the receiver pattern
-			recvStart := state.fset.Position(fd.Recv.Pos()).Offset
-			recvEnd := state.fset.Position(fd.Recv.End()).Offset
-			recvText := strings.TrimSpace(state.original[recvStart:recvEnd])
-			if !strings.Contains(recvText, recv[1:len(recv)-1]) {
+			recvStart := state.fset.Position(fd.Recv.Opening).Offset + 1
+			recvEnd := state.fset.Position(fd.Recv.Closing).Offset
+			if !matchReceiver(state.original[recvStart:recvEnd], recv[1:len(recv)-1]) {
 				continue
 			}
 		} else if fd.Recv != nil && len(fd.Recv.List) > 0 {
@@ -416,6 +415,26 @@ func evalGotoFunc(state *applyState, rest string) (cursor, error) {
 	return cursor{}, fmt.Errorf("function not found: %s", funcName)
 }
 
+// matchReceiver tells whether pattern is the type of the receiver, with or
+// without its name, pointer star and type parameters.
+func matchReceiver(recv string, pattern string) bool {
+	recv = strings.TrimSpace(recv)
+	pattern = strings.TrimSpace(pattern)
+	if recv == pattern {
+		return true
+	}
+	if idx := strings.Index(recv, "["); idx >= 0 && !strings.Contains(pattern, "[") {
+		recv = strings.TrimSpace(recv[:idx])
+	}
+	if pattern == "" || !strings.HasSuffix(recv, pattern) {
+		return false
+	}
+	if len(pattern) == len(recv) {
+		return true
+	}
+	return pattern[0] == '*' || !isToken(recv[len(recv)-len(pattern)-1])
+}
+
 func evalGotoBrace(state *applyState, opening bool) (cursor, error) {
 	// Find the current declaration to locate its braces
 	node := state.cursorNode()
@@ -518,13 +537,9 @@ func (s *applyState) findNodeAt(node ast.Node, pos token.Pos) ast.Node {
 			}
 		}
 	case *ast.TypeSpec:
-		if child := s.findNodeAt(n.Type, pos); child != nil {
-			return child
-		}
+		return n
 	case *ast.FuncDecl:
 		return n
-	case *ast.StructType:
-		return node
 	}
 	return node
 }
@@ -583,14 +598,14 @@ func evalCopyFunc(state *applyState, sourceName, targetName string) (string, err
 		if !ok {
 			continue
 		}
-		if fd.Name.Name != sourceName {
+		if fd.Recv != nil || fd.Name.Name != sourceName {
 			continue
 		}
 		funcStart := state.fset.Position(fd.Pos()).Offset
 		funcEnd := state.fset.Position(fd.End()).Offset
-		funcSrc := state.original[funcStart:funcEnd]
-		result := strings.Replace(funcSrc, "func "+sourceName+"(", "func "+targetName+"(", 1)
-		return result, nil
+		nameStart := state.fset.Position(fd.Name.Pos()).Offset
+		nameEnd := state.fset.Position(fd.Name.End()).Offset
+		return state.original[funcStart:nameStart] + targetName + state.original[nameEnd:funcEnd], nil
 	}
 	return "", fmt.Errorf("function %q not found", sourceName)
 }
diff --git a/instrument/patch/apply_parse.go b/instrument/patch/apply_parse.go
index f3f9ba9..95b0d8b 100644
--- a/instrument/patch/apply_parse.go
+++ b/instrument/patch/apply_parse.go
@@ -2,6 +2,7 @@ package patch
 
 import (
 	"fmt"
+	"go/token"
 	"strings"
 )
 
@@ -168,6 +169,9 @@ func parseCopyFuncLine(rest string) (Command, error) {
 	}
 	source := rest[:asIdx]
 	target := strings.TrimSuffix(rest[asIdx+4:], " append to file end")
+	if !token.IsIdentifier(target) {
+		return Command{}, fmt.Errorf("copy_func requires a function name after 'as': %q", rest)
+	}
 	return Command{
 		Type:       CmdCopyFunc,
 		CopySource: source,
-- 
2.43.0


From c83da849317fc0bdda92d2af03ef8ff004eda377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 26/55] fix: patch: clear the blocks of a patch file in reverse
 before applying any

A block was cleared while the edits of later blocks were still there, so that
applying a patch file again could give another result.
---
 instrument/patch/apply.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/instrument/patch/apply.go b/instrument/patch/apply.go
index bbfc6e0..17c900f 100644
--- a/instrument/patch/apply.go
+++ b/instrument/patch/apply.go
@@ -210,19 +210,20 @@ func ApplyXgoPatchFile(patchFile, targetFile string) error {
 
 // ApplyXgoPatchContent applies parsed patch content to a source string.
 // Each <patch> block is applied independently; blocks re-parse after prior block edits.
-// Before applying a named patch, any existing markers with that name are cleared.
+// Before applying, any existing markers with the names of the blocks are cleared.
 func ApplyXgoPatchContent(source string, patchContent string) (string, error) {
 	pf, err := ParseXgoPatch(patchContent)
 	if err != nil {
 		return "", err
 	}
 
+	// clear in the reverse order of applying, because later blocks may have
+	// edited the text of earlier ones
 	result := source
+	for i := len(pf.Blocks) - 1; i >= 0; i-- {
+		result = clearPatch(result, pf.Blocks[i].Name)
+	}
 	for _, block := range pf.Blocks {
-		if block.Name != "" {
-			result = clearPatch(result, block.Name)
-		}
-
 		var err error
 		result, err = applyPatch(result, block)
 		if err != nil {
-- 
2.43.0


From a7e77df1b65f89e2db734d3d44ccca03b94d832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 27/55] fix: patch: report malformed patch files

Patches without a name, with the name of another one, text outside of patches
and searches for nothing were accepted and did nothing or the wrong thing.
---
 instrument/patch/apply_parse.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/instrument/patch/apply_parse.go b/instrument/patch/apply_parse.go
index 95b0d8b..cf96f43 100644
--- a/instrument/patch/apply_parse.go
+++ b/instrument/patch/apply_parse.go
@@ -17,9 +17,20 @@ func ParseXgoPatch(content string) (*PatchFile, error) {
 
 func parseBlocks(content string) ([]PatchBlock, error) {
 	var blocks []PatchBlock
+	names := make(map[string]bool)
 
 	for {
 		openIdx := strings.Index(content, "<patch")
+		outside := content
+		if openIdx >= 0 {
+			outside = content[:openIdx]
+		}
+		for _, line := range strings.Split(outside, "\n") {
+			line = strings.TrimSpace(line)
+			if line != "" && !strings.HasPrefix(line, "#") {
+				return nil, fmt.Errorf("unexpected text outside of <patch>: %q", line)
+			}
+		}
 		if openIdx < 0 {
 			break
 		}
@@ -41,6 +52,13 @@ func parseBlocks(content string) ([]PatchBlock, error) {
 		if err != nil {
 			return nil, err
 		}
+		if block.Name == "" || strings.Contains(block.Name, "\n") || strings.Contains(block.Name, "*/") {
+			return nil, fmt.Errorf("invalid patch name: %q", block.Name)
+		}
+		if names[block.Name] {
+			return nil, fmt.Errorf("duplicate patch name: %q", block.Name)
+		}
+		names[block.Name] = true
 		blocks = append(blocks, block)
 		content = content[closeEnd:]
 	}
@@ -85,8 +103,14 @@ func parseLine(line string) (Command, error) {
 	case cmd == "goto":
 		return parseGotoTarget(rest)
 	case cmd == "match":
+		if rest == "" {
+			return Command{}, fmt.Errorf("match requires text")
+		}
 		return Command{Type: CmdMatch, SearchText: rest}, nil
 	case cmd == "find_for_replace":
+		if rest == "" {
+			return Command{}, fmt.Errorf("find_for_replace requires text")
+		}
 		return Command{Type: CmdFindForReplace, SearchText: rest}, nil
 	case cmd == "insert_before":
 		if rest == "" {
-- 
2.43.0


From 1084e648a1ca2b7973f8f0d01e97a08a75c525e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 28/55] fix: patch: EditFile compares with the file, not with
 its cleaned content

An edit that no longer changes the pristine content left an earlier edit in
the file.
---
 instrument/patch/patch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrument/patch/patch.go b/instrument/patch/patch.go
index 7b7ec67..d0b8960 100644
--- a/instrument/patch/patch.go
+++ b/instrument/patch/patch.go
@@ -31,7 +31,7 @@ func EditFile(file string, callback func(content string) (string, error)) (err e
 	if err != nil {
 		return err
 	}
-	if newContent == content {
+	if newContent == string(bytes) {
 		return nil
 	}
 	return fileutil.WriteFile(file, []byte(newContent))
-- 
2.43.0


From 7acd6f958daa32da21966f241e5855920027fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 29/55] fix: patch: restore the replaced text of marked edits

Updating a replacement put the replaced text back into the code and forgot it,
ReplaceContentAfter never recorded it, a label that is the prefix of another
one ended at its marker, and nested edits were taken for the replaced text.
---
 instrument/patch/clean_patch.go | 20 +++++++++++---------
 instrument/patch/patch.go       | 17 +++++++++++++----
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/instrument/patch/clean_patch.go b/instrument/patch/clean_patch.go
index 3d57fc8..2bdc872 100644
--- a/instrument/patch/clean_patch.go
+++ b/instrument/patch/clean_patch.go
@@ -81,11 +81,11 @@ func CleanPatchMarkers(content string, start PatchMarker, end PatchMarker) strin
 }
 
 func extractOldContent(content string) string {
-	idxOld := strings.Index(content, "/*old:")
-	if idxOld == -1 {
+	// it follows the begin marker, others belong to nested patches
+	if !strings.HasPrefix(content, "/*old:") {
 		return ""
 	}
-	base := idxOld + len("/*old:")
+	base := len("/*old:")
 	idxEnd := strings.Index(content[base:], "*/")
 	if idxEnd == -1 {
 		return ""
@@ -96,7 +96,7 @@ func extractOldContent(content string) string {
 }
 
 func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (beginIdx int, beginEndIdx int, endIdx int, endEndIdx int) {
-	beginIdx, beginEndIdx = findMarker(content, i, start, "")
+	beginIdx, beginEndIdx = findMarker(content, i, start)
 	if beginIdx == -1 {
 		return -1, -1, -1, -1
 	}
@@ -105,25 +105,27 @@ func findStartEnd(content string, i int, start PatchMarker, end PatchMarker) (be
 	// e.g. /*<begin label>*//*<end label>*/
 	label := content[beginIdx+len(start.Begin) : beginEndIdx-len(start.End)]
 
-	endIdx, endEndIdx = findMarker(content, beginEndIdx, end, label)
+	endMark := end.Begin + label + end.End
+	endIdx = strings.Index(content[beginEndIdx:], endMark)
 	if endIdx == -1 {
 		return -1, -1, -1, -1
 	}
+	endIdx += beginEndIdx
 
-	return beginIdx, beginEndIdx, endIdx, endEndIdx
+	return beginIdx, beginEndIdx, endIdx, endIdx + len(endMark)
 }
 
 // findMarker finds the first occurrence of marker.Begin
 // and marker.End in content starting from i.
 // It returns the start and end indices of the marker.
 // If the marker is not found, it returns -1, -1.
-func findMarker(content string, i int, marker PatchMarker, label string) (int, int) {
-	start := strings.Index(content[i:], marker.Begin+label)
+func findMarker(content string, i int, marker PatchMarker) (int, int) {
+	start := strings.Index(content[i:], marker.Begin)
 	if start == -1 {
 		return -1, -1
 	}
 	start += i
-	i = start + len(marker.Begin) + len(label)
+	i = start + len(marker.Begin)
 	end := strings.Index(content[i:], marker.End)
 	if end == -1 {
 		return -1, -1
diff --git a/instrument/patch/patch.go b/instrument/patch/patch.go
index d0b8960..b7557eb 100644
--- a/instrument/patch/patch.go
+++ b/instrument/patch/patch.go
@@ -157,7 +157,7 @@ func ReplaceContentAfter(content string, beginMark string, endMark string, seq [
 	if replaceContent == "" {
 		return content
 	}
-	closuerContent := beginMark + replaceContent + endMark
+	closuerContent := beginMark + oldMark(target) + replaceContent + endMark
 	idx := indexSeq(content, seq, false)
 	if idx < 0 {
 		panic(fmt.Errorf("sequence not found: %v", seq))
@@ -191,7 +191,7 @@ func insertOrReplaceContentNoDuplicate(content string, replace bool, replaceLen
 		return content
 	}
 	if replace {
-		return content[:idx] + beginMark + fmt.Sprintf("/*old:%s*/", content[idx:idx+replaceLen]) + separator + insertContent + separator + endMark + separator + content[idx+replaceLen:]
+		return content[:idx] + beginMark + oldMark(content[idx:idx+replaceLen]) + separator + insertContent + separator + endMark + separator + content[idx+replaceLen:]
 	}
 	closureContent := beginMark + separator + insertContent + separator + endMark + separator
 	if strings.Contains(content, closureContent) {
@@ -200,6 +200,14 @@ func insertOrReplaceContentNoDuplicate(content string, replace bool, replaceLen
 	return content[:idx] + closureContent + content[idx:]
 }
 
+// oldMark records the replaced text, so that CleanPatch can restore it
+func oldMark(old string) string {
+	if strings.Contains(old, "*/") {
+		panic(fmt.Errorf("cannot replace text that has \"*/\": %q", old))
+	}
+	return fmt.Sprintf("/*old:%s*/", old)
+}
+
 func tryReplaceWithMark(content string, beginMark string, endMark string, separator string, patchContent string) (string, bool) {
 	if beginMark == "" || endMark == "" {
 		panic(fmt.Errorf("beginMark or endMark is empty"))
@@ -208,13 +216,14 @@ func tryReplaceWithMark(content string, beginMark string, endMark string, separa
 	if beginIdx < 0 {
 		return content, false
 	}
-	endIdx := strings.Index(content, endMark)
+	endIdx := strings.Index(content[beginIdx:], endMark)
 	if endIdx < 0 {
 		return content, false
 	}
+	endIdx += beginIdx
 	oldContent := extractOldContent(content[beginIdx+len(beginMark) : endIdx])
 	if oldContent != "" {
-		patchContent = oldContent + patchContent
+		beginMark += oldMark(oldContent)
 	}
 	lastIdx := endIdx + len(endMark)
 	return content[:beginIdx] + beginMark + separator + patchContent + separator + endMark + separator + content[lastIdx:], true
-- 
2.43.0


From 1bfb758e3e80007865e8b4aa7aef2292d3874014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 30/55] fix: overlay: an empty replacement deletes the file, as
 for go

---
 instrument/overlay/io.go      | 17 ++++++++++++-----
 instrument/overlay/overlay.go | 21 +++++++++++++++++++++
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 7ae14bb..9f68c93 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -70,14 +70,17 @@ func ParseGoOverlay(input *GoOverlay, opts PathOptions) *ParsedOverlay {
 	out := &ParsedOverlay{Entries: make([]OverlayEntry, 0, len(input.Replace))}
 	for source, target := range input.Replace {
 		srcRes := ResolveAbsFile(source, opts)
-		tgtRes := ResolveAbsFile(target, opts)
-		out.Entries = append(out.Entries, OverlayEntry{
+		entry := OverlayEntry{
 			SourceInput:     source,
 			SourceResolved:  srcRes,
 			SourceCanonical: evalSymlinksAbs(srcRes),
-			TargetResolved:  tgtRes,
-			TargetCanonical: evalSymlinksAbs(tgtRes),
-		})
+		}
+		// an empty target deletes the source
+		if target != "" {
+			entry.TargetResolved = ResolveAbsFile(target, opts)
+			entry.TargetCanonical = evalSymlinksAbs(entry.TargetResolved)
+		}
+		out.Entries = append(out.Entries, entry)
 	}
 	return out
 }
@@ -199,6 +202,10 @@ func ComposeGoOverlays(caller *ParsedOverlay, generated *GoOverlay, opts PathOpt
 		if !ok {
 			return source, nil
 		}
+		if target == "" {
+			resolved[source] = ""
+			return "", nil
+		}
 		visiting[source] = true
 		terminal, err := resolve(target, append(path, source))
 		delete(visiting, source)
diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index a10ff8e..a37bba9 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -19,6 +19,8 @@ type FileOverlay struct {
 	Content string
 
 	hasOverriddenContent bool
+	// the file is to be treated as nonexistent
+	deleted bool
 }
 
 func MakeOverlay() Overlay {
@@ -39,7 +41,13 @@ func absFileKey(file AbsFile) AbsFile {
 	return AbsFile(path)
 }
 
+// OverrideFile redirects absFile to targetFile. As in go's -overlay, an
+// empty targetFile means that absFile does not exist.
 func (o Overlay) OverrideFile(absFile AbsFile, targetFile AbsFile) {
+	if targetFile == "" {
+		o[absFileKey(absFile)] = &FileOverlay{deleted: true}
+		return
+	}
 	o[absFileKey(absFile)] = &FileOverlay{
 		AbsFile: absFileKey(targetFile),
 	}
@@ -63,6 +71,9 @@ func (o Overlay) Size(absFile AbsFile) (size int64, err error) {
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.deleted {
+			return 0, &os.PathError{Op: "stat", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return int64(len(overlayFile.Content)), nil
 		}
@@ -82,6 +93,9 @@ func (o Overlay) Read(absFile AbsFile) (hitContent bool, content string, err err
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.deleted {
+			return false, "", &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return true, overlayFile.Content, nil
 		}
@@ -101,6 +115,9 @@ func (o Overlay) ReadBytes(absFile AbsFile) (hitContent bool, content []byte, er
 
 	readOSFile := absFile
 	if overlayFile != nil {
+		if overlayFile.deleted {
+			return false, nil, &os.PathError{Op: "open", Path: string(absFile), Err: os.ErrNotExist}
+		}
 		if overlayFile.hasOverriddenContent {
 			return true, []byte(overlayFile.Content), nil
 		}
@@ -175,6 +192,10 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 			replace[AbsFile(filepath.ToSlash(string(absFile)))] = AbsFile(filepath.ToSlash(writeFile))
 			continue
 		}
+		if fileOverlay.deleted {
+			replace[AbsFile(filepath.ToSlash(string(absFile)))] = ""
+			continue
+		}
 		if fileOverlay.AbsFile == "" {
 			continue
 		}
-- 
2.43.0


From 6e31b14e56ff1df9d572b4f6e87899aa74c9a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 31/55] fix: overlay: aliases of one file resolve to one
 replacement

---
 instrument/overlay/io.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 9f68c93..92fd3c7 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -68,7 +68,14 @@ func ParseGoOverlay(input *GoOverlay, opts PathOptions) *ParsedOverlay {
 		return nil
 	}
 	out := &ParsedOverlay{Entries: make([]OverlayEntry, 0, len(input.Replace))}
-	for source, target := range input.Replace {
+	sources := make([]string, 0, len(input.Replace))
+	for source := range input.Replace {
+		sources = append(sources, string(source))
+	}
+	sort.Strings(sources)
+	for _, sourceKey := range sources {
+		source := AbsFile(sourceKey)
+		target := input.Replace[source]
 		srcRes := ResolveAbsFile(source, opts)
 		entry := OverlayEntry{
 			SourceInput:     source,
@@ -93,9 +100,9 @@ func (p *ParsedOverlay) ApplyFileRedirects(fs Overlay) {
 	if p == nil {
 		return
 	}
-	for _, e := range p.Entries {
+	for source, target := range p.CanonicalReplace() {
 		// Canonical source/target; OverrideFile re-keys via absFileKey.
-		fs.OverrideFile(e.SourceCanonical, e.TargetCanonical)
+		fs.OverrideFile(source, target)
 	}
 }
 
-- 
2.43.0


From ceeca1d6dcec8fa131d2f5c1a1707777c1adda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 32/55] fix: overlay: instrument files reached through symbolic
 links

---
 instrument/overlay/io.go      | 10 +++++++---
 instrument/overlay/overlay.go | 22 ++++++++++++++++++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/instrument/overlay/io.go b/instrument/overlay/io.go
index 92fd3c7..0a2011b 100644
--- a/instrument/overlay/io.go
+++ b/instrument/overlay/io.go
@@ -180,10 +180,11 @@ func ComposeGoOverlays(caller *ParsedOverlay, generated *GoOverlay, opts PathOpt
 			combined[source] = target
 		}
 	}
-	if generated != nil {
+	parsedGenerated := ParseGoOverlay(generated, opts)
+	if parsedGenerated != nil {
 		// Generated paths (from MakeGoOverlay) are already abs; parse once so
 		// relative keys and symlink aliases still share loader identity.
-		for source, target := range ParseGoOverlay(generated, opts).CanonicalReplace() {
+		for source, target := range parsedGenerated.CanonicalReplace() {
 			// A generated mapping is xgo's instrumented version of the
 			// effective source and must take precedence over the caller input.
 			combined[source] = target
@@ -233,5 +234,8 @@ func ComposeGoOverlays(caller *ParsedOverlay, generated *GoOverlay, opts PathOpt
 			return nil, err
 		}
 	}
-	return &GoOverlay{Replace: resolved}, nil
+	composed := &GoOverlay{Replace: resolved}
+	// the go command looks files up by the spelling it was given
+	parsedGenerated.ProjectOntoCallerSources(composed)
+	return composed, nil
 }
diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index a37bba9..2e1af9f 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -21,6 +21,10 @@ type FileOverlay struct {
 	hasOverriddenContent bool
 	// the file is to be treated as nonexistent
 	deleted bool
+
+	// spellings are the paths by which content was overridden, the last
+	// being the most recent. The go command looks files up literally.
+	spellings []AbsFile
 }
 
 func MakeOverlay() Overlay {
@@ -56,9 +60,20 @@ func (o Overlay) OverrideFile(absFile AbsFile, targetFile AbsFile) {
 func (o Overlay) OverrideContent(absFile AbsFile, content string) {
 	// Replaces any prior file redirect for the same identity, so a later
 	// instrumented content mapping cannot leave an uninstrumented alias behind.
-	o[absFileKey(absFile)] = &FileOverlay{
+	key := absFileKey(absFile)
+	spelling := AbsFile(filepath.Clean(filepath.FromSlash(string(absFile))))
+	var spellings []AbsFile
+	if prev := o[key]; prev != nil {
+		for _, p := range prev.spellings {
+			if p != spelling {
+				spellings = append(spellings, p)
+			}
+		}
+	}
+	o[key] = &FileOverlay{
 		Content:              content,
 		hasOverriddenContent: true,
+		spellings:            append(spellings, spelling),
 	}
 }
 
@@ -183,13 +198,16 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 			}
 			content := fileOverlay.Content
 			if !noLineDirective {
-				content = patch.FmtLineDirective(string(absFile), 1) + "\n" + content
+				content = patch.FmtLineDirective(string(fileOverlay.spellings[len(fileOverlay.spellings)-1]), 1) + "\n" + content
 			}
 			err = os.WriteFile(writeFile, []byte(content), 0644)
 			if err != nil {
 				return nil, err
 			}
 			replace[AbsFile(filepath.ToSlash(string(absFile)))] = AbsFile(filepath.ToSlash(writeFile))
+			for _, spelling := range fileOverlay.spellings {
+				replace[AbsFile(filepath.ToSlash(string(spelling)))] = AbsFile(filepath.ToSlash(writeFile))
+			}
 			continue
 		}
 		if fileOverlay.deleted {
-- 
2.43.0


From 07d4c2f891648d6bdba83023ed6598d72f16e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 33/55] fix: goinfo: FindGoModDirSubPath returns nested
 directories top down

---
 support/goinfo/find.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/goinfo/find.go b/support/goinfo/find.go
index ada3523..5acb79a 100644
--- a/support/goinfo/find.go
+++ b/support/goinfo/find.go
@@ -17,7 +17,7 @@ func FindGoModDir(dir string) (string, error) {
 
 // FindGoModDirSubPath find go.mod by traversing dir bottom up,
 // upon finding a go.mod file, it returns the corresponding
-// sub path and root dir
+// sub path(top down) and root dir
 func FindGoModDirSubPath(dir string) ([]string, string, error) {
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
@@ -46,7 +46,7 @@ func FindGoModDirSubPath(dir string) ([]string, string, error) {
 		if stat.IsDir() {
 			continue
 		}
-		return subPath, absDir, nil
+		return reverse(subPath), absDir, nil
 	}
 }
 
-- 
2.43.0


From 60ff224a68c92da0385be70058dfe5c9ca5d03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 34/55] fix: goinfo: malformed go versions are errors, extra
 fields are not part of the OS

---
 support/goinfo/goinfo.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/support/goinfo/goinfo.go b/support/goinfo/goinfo.go
index 6092a42..63cbf54 100644
--- a/support/goinfo/goinfo.go
+++ b/support/goinfo/goinfo.go
@@ -55,7 +55,9 @@ func ParseGoVersion(s string) (*GoVersion, error) {
 		return nil, fmt.Errorf("unrecognized version, expect space after 'go1.x.y': %s", s)
 	}
 	version := s[:spaceIdx]
-	osArch := s[spaceIdx+1:]
+	// between the version and os/arch there may be extra
+	// fields, e.g. 'X:experiment' or the name of a distribution
+	osArch := s[strings.LastIndex(s, " ")+1:]
 
 	res, err := ParseGoVersionNumber(version)
 	if err != nil {
@@ -76,6 +78,9 @@ func ParseGoVersion(s string) (*GoVersion, error) {
 func ParseGoVersionNumber(version string) (*GoVersion, error) {
 	res := &GoVersion{}
 	verList := strings.Split(version, ".")
+	if len(verList) > 3 {
+		return nil, fmt.Errorf("unrecognized version, expect at most 3 numbers, found: %s", version)
+	}
 	for i := 0; i < 3; i++ {
 		if i < len(verList) {
 			num := verList[i]
@@ -85,10 +90,14 @@ func ParseGoVersionNumber(version string) (*GoVersion, error) {
 					return r < '0' || r > '9'
 				})
 				if idx > 0 {
+					if len(verList) > 2 {
+						return nil, fmt.Errorf("unrecognized version, unexpected patch after suffix: %s", version)
+					}
 					num = num[:idx]
 				}
 			}
-			verInt, err := strconv.ParseInt(num, 10, 64)
+			// no sign allowed
+			verInt, err := strconv.ParseUint(num, 10, 31)
 			if err != nil {
 				return nil, fmt.Errorf("unrecognized version, expect number, found: %s", version)
 			}
-- 
2.43.0


From aa2b34535d49025a4a591269b993aefc4b82afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 35/55] fix: goinfo: read module paths as the go command does
 (tabs, quotes, blocks)

---
 support/goinfo/mod.go | 54 ++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/support/goinfo/mod.go b/support/goinfo/mod.go
index 74a39a6..f2c8f39 100644
--- a/support/goinfo/mod.go
+++ b/support/goinfo/mod.go
@@ -112,30 +112,48 @@ func reverse(list []string) []string {
 	return list
 }
 
-const modulePrefix = "module "
+const moduleVerb = "module"
 
 func parseModPath(goModContent string) string {
-	s := goModContent
-	for {
-		s = strings.TrimLeft(s, " \t")
-		newLineIdx := strings.Index(s, "\n")
-		if strings.HasPrefix(s, modulePrefix) {
-			ed := newLineIdx
-			if ed < 0 {
-				ed = len(s)
-			}
-			module := strings.TrimSpace(s[len(modulePrefix):ed])
-			commentIdx := strings.Index(module, "//")
-			if commentIdx >= 0 {
-				module = strings.TrimSpace(module[:commentIdx])
+	var block string // verb of the enclosing block, e.g. require (...)
+	for _, line := range strings.Split(goModContent, "\n") {
+		if commentIdx := strings.Index(line, "//"); commentIdx >= 0 {
+			line = line[:commentIdx]
+		}
+		line = strings.TrimSpace(line)
+		if line == "" {
+			continue
+		}
+		if block != "" {
+			if line == ")" {
+				block = ""
+			} else if block == moduleVerb {
+				return unquoteModPath(line)
 			}
-			return module
+			continue
 		}
-		if newLineIdx < 0 {
-			return ""
+		verb, arg := line, ""
+		if idx := strings.IndexAny(line, " \t(\"`"); idx >= 0 {
+			verb, arg = line[:idx], strings.TrimSpace(line[idx:])
 		}
-		s = s[newLineIdx+1:]
+		if arg == "(" {
+			block = verb
+			continue
+		}
+		if verb == moduleVerb {
+			return unquoteModPath(arg)
+		}
+	}
+	return ""
+}
+
+// unquoteModPath removes quotes around a module path: "a" or `a`
+func unquoteModPath(s string) string {
+	n := len(s)
+	if n >= 2 && (s[0] == '"' || s[0] == '`') && s[n-1] == s[0] {
+		return s[1 : n-1]
 	}
+	return s
 }
 
 func ModCompare(path string, x, y string) int {
-- 
2.43.0


From f78d0c7c86a081d40d2182a5a280834881b9a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 36/55] fix: coverage: merging, compacting and filtering leave
 their inputs unchanged

---
 support/coverage/merge.go | 14 +++++++-------
 support/coverage/parse.go | 17 +----------------
 2 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/support/coverage/merge.go b/support/coverage/merge.go
index faaf5c8..17137c7 100644
--- a/support/coverage/merge.go
+++ b/support/coverage/merge.go
@@ -19,15 +19,13 @@ func Merge(covs ...[]*CovLine) []*CovLine {
 }
 
 func Filter(covs []*CovLine, check func(line *CovLine) bool) []*CovLine {
-	n := len(covs)
-	j := 0
-	for i := 0; i < n; i++ {
-		if check(covs[i]) {
-			covs[j] = covs[i]
-			j++
+	result := make([]*CovLine, 0, len(covs))
+	for _, line := range covs {
+		if check(line) {
+			result = append(result, line)
 		}
 	}
-	return covs[:j]
+	return result
 }
 
 func doMerge(lineByPrefix map[string]*CovLine, dst []*CovLine, src []*CovLine) []*CovLine {
@@ -37,6 +35,8 @@ func doMerge(lineByPrefix map[string]*CovLine, dst []*CovLine, src []*CovLine) [
 			prevLine.Count += line.Count
 			continue
 		}
+		// copy to keep src unchanged
+		line = &CovLine{Prefix: line.Prefix, Count: line.Count}
 		lineByPrefix[line.Prefix] = line
 		dst = append(dst, line)
 	}
diff --git a/support/coverage/parse.go b/support/coverage/parse.go
index 9aea086..4c6a27f 100644
--- a/support/coverage/parse.go
+++ b/support/coverage/parse.go
@@ -52,20 +52,5 @@ func Compact(lines []*CovLine) []*CovLine {
 }
 
 func compact(lineByPrefix map[string]*CovLine, lines []*CovLine) []*CovLine {
-	n := len(lines)
-
-	i := 0
-	for j := 0; j < n; j++ {
-		line := lines[j]
-		prefix := lines[j].Prefix
-		prevLine, ok := lineByPrefix[prefix]
-		if ok {
-			prevLine.Count += line.Count
-			continue
-		}
-		lineByPrefix[prefix] = line
-		lines[i] = lines[j]
-		i++
-	}
-	return lines[:i]
+	return doMerge(lineByPrefix, make([]*CovLine, 0, len(lines)), lines)
 }
-- 
2.43.0


From 69f96c7113f20387078ae3bcb9a86eaefb416aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 37/55] fix: coverage: appended profiles and CRLF lines are
 parsed

---
 support/coverage/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/coverage/parse.go b/support/coverage/parse.go
index 4c6a27f..535ea8e 100644
--- a/support/coverage/parse.go
+++ b/support/coverage/parse.go
@@ -20,6 +20,11 @@ func Parse(content string) (mode string, covLines []*CovLine) {
 	}
 	covLines = make([]*CovLine, 0, len(lines))
 	for _, line := range lines {
+		line = strings.TrimSuffix(line, "\r")
+		if strings.HasPrefix(line, modePrefix) {
+			// header of an appended profile
+			continue
+		}
 		covLine := ParseCovLine(line)
 		if covLine == nil {
 			continue
-- 
2.43.0


From 92a9c429c0062e73953308bfdc96101594c9794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 38/55] fix: netutil: a handler panicking with an error is
 reported as failure, with its content type

---
 support/netutil/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/netutil/http.go b/support/netutil/http.go
index a7ebe63..d03e36e 100644
--- a/support/netutil/http.go
+++ b/support/netutil/http.go
@@ -42,7 +42,7 @@ func HandleJSON(w http.ResponseWriter, r *http.Request, h func(ctx context.Conte
 			stack := debug.Stack()
 			log.Printf("panic: %s", stack)
 			if pe, ok := e.(error); ok {
-				e = pe
+				err = pe
 			} else {
 				err = fmt.Errorf("panic: %v", e)
 			}
@@ -58,8 +58,8 @@ func HandleJSON(w http.ResponseWriter, r *http.Request, h func(ctx context.Conte
 			if httpErr, ok := err.(HttpStatusErr); ok {
 				code = httpErr.HttpStatusCode()
 			}
-			w.WriteHeader(code)
 			w.Header().Set("Content-Type", "text/plain")
+			w.WriteHeader(code)
 			w.Write([]byte(err.Error()))
 			return
 		}
-- 
2.43.0


From 7b0a0cdfdbc2b3b7f5d9483951993f5c73be430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 39/55] fix: session: destroying a session releases blocked
 senders and pollers

---
 support/session/session.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/support/session/session.go b/support/session/session.go
index d77c7b6..afb83fd 100644
--- a/support/session/session.go
+++ b/support/session/session.go
@@ -26,12 +26,17 @@ type Session interface {
 }
 
 type sessionImpl struct {
-	ch chan interface{}
+	ch   chan interface{}
+	done chan struct{} // closed when destroyed
 }
 
 func (c *sessionImpl) SendEvents(events ...interface{}) error {
 	for _, e := range events {
-		c.ch <- e
+		select {
+		case c.ch <- e:
+		case <-c.done:
+			return netutil.ParamErrorf("session has been removed")
+		}
 	}
 	return nil
 }
@@ -51,6 +56,8 @@ func (c *sessionImpl) poll(timeout time.Duration, pollInterval time.Duration) []
 			events = append(events, event)
 		case <-timeoutCh:
 			return events
+		case <-c.done:
+			return events
 		default:
 			if len(events) > 0 {
 				return events
@@ -70,7 +77,8 @@ func (c *sessionManager) Start() (string, Session, error) {
 	idInt := atomic.AddInt64(&c.nextID, 1)
 	id := fmt.Sprintf("session_%s_%d", time.Now().Format("2006-01-02_15:04:05"), idInt)
 	session := &sessionImpl{
-		ch: make(chan interface{}, 100),
+		ch:   make(chan interface{}, 100),
+		done: make(chan struct{}),
 	}
 	c.mapping.Store(id, session)
 	return id, session, nil
@@ -85,6 +93,10 @@ func (c *sessionManager) Get(id string) (Session, error) {
 }
 
 func (c *sessionManager) Destroy(id string) error {
-	c.mapping.Delete(id)
+	val, ok := c.mapping.LoadAndDelete(id)
+	if ok {
+		// release blocked senders and pollers
+		close(val.(*sessionImpl).done)
+	}
 	return nil
 }
-- 
2.43.0


From 962f4746d0b0491e758df39c44afebb5eb29ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 40/55] fix: filecopy: report every failure of a concurrent
 copy

---
 support/filecopy/copy.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 366faac..6743845 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -220,6 +220,13 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	close(ch)
 	// NOTE: must wait all goroutines to finish
 	wg.Wait()
+	if err == nil {
+		// failures of the last files
+		select {
+		case err = <-errCh:
+		default:
+		}
+	}
 
 	// fmt.Printf("copied: %d\n", atomic.LoadInt64(&added))
 	return err
-- 
2.43.0


From 96801c77232ed227109a93c3b1a7fc4467f2cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 41/55] fix: filecopy: copy from '.' and from relative or
 chained links

---
 support/filecopy/copy.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 6743845..0da6983 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -262,11 +262,26 @@ func copyDirHandle(srcDir string, targetAbsDir string, opts *copyOptions, handle
 		// example:
 		//   - link: C:\hostedtoolcache\windows\go\1.24.2\x64
 		//   - resolved: D:\hostedtoolcache\windows\go\1.24.2\x64\
-		linkDir, err := os.Readlink(srcDir)
+		// the link can be relative, or lead to another link
+		actualDir, err = filepath.EvalSymlinks(srcDir)
 		if err != nil {
 			return err
 		}
-		actualDir = linkDir
+		stat, err = os.Lstat(actualDir)
+		if err != nil {
+			return err
+		}
+		if !stat.IsDir() {
+			// not resolved, e.g. a junction on windows
+			actualDir, err = os.Readlink(actualDir)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	actualDir, err = filepath.Abs(actualDir)
+	if err != nil {
+		return err
 	}
 	// clean example:
 	//   - before: D:\hostedtoolcache\windows\go\1.24.2\x64\
-- 
2.43.0


From e167db47c3826ea7f7730f5e1c6a5d79081284cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 42/55] fix: filecopy: never destroy the source of a copy

---
 support/filecopy/copy.go | 50 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 0da6983..e4c4ceb 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -137,6 +137,10 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	if parent == targetAbsDir {
 		return fmt.Errorf("unable to override %v", targetDir)
 	}
+	err = checkOverlap(srcDir, targetAbsDir, !opts.noRm)
+	if err != nil {
+		return err
+	}
 	if !opts.noRm {
 		// remove target
 		err = os.RemoveAll(targetAbsDir)
@@ -232,6 +236,30 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	return err
 }
 
+// checkOverlap checks that creating, and if replace is set removing,
+// the target dir does not destroy the source dir
+func checkOverlap(srcDir string, targetAbsDir string, replace bool) error {
+	src, err := filepath.EvalSymlinks(srcDir)
+	if err != nil {
+		// reported when copying
+		return nil
+	}
+	src, err = filepath.Abs(src)
+	if err != nil {
+		return err
+	}
+	target, err := filepath.EvalSymlinks(targetAbsDir)
+	if err != nil {
+		// target does not exist
+		return nil
+	}
+	sep := string(filepath.Separator)
+	if src == target || (replace && strings.HasPrefix(src+sep, strings.TrimSuffix(target, sep)+sep)) {
+		return fmt.Errorf("unable to override %s: it contains the source dir %s", targetAbsDir, srcDir)
+	}
+	return nil
+}
+
 // copy if panic happened, they are converted to error
 func copyNoPanic(src string, dst string, buf []byte) (err error) {
 	defer func() {
@@ -310,9 +338,21 @@ func copyDirHandle(srcDir string, targetAbsDir string, opts *copyOptions, handle
 		}
 		dstPath := filepath.Join(targetAbsDir, subPath)
 		if isDir {
+			if path == targetAbsDir {
+				return fmt.Errorf("cannot copy %s into itself: %s", srcDir, targetAbsDir)
+			}
 			return os.MkdirAll(dstPath, 0755)
 		}
 
+		// replace existing link, instead of writing the file it points to
+		dstStat, dstErr := os.Lstat(dstPath)
+		if dstErr == nil && (dstStat.Mode()&fs.ModeSymlink) != 0 {
+			err := os.Remove(dstPath)
+			if err != nil {
+				return err
+			}
+		}
+
 		// handle symlink and other files
 		typ := d.Type()
 		if !typ.IsRegular() {
@@ -347,6 +387,16 @@ func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
 	}
 	defer reader.Close()
 
+	// opening dst will truncate it
+	srcStat, err := reader.Stat()
+	if err != nil {
+		return err
+	}
+	dstStat, err := os.Stat(dst)
+	if err == nil && os.SameFile(srcStat, dstStat) {
+		return fmt.Errorf("%s and %s are the same file", src, dst)
+	}
+
 	if mkdirs {
 		err := os.MkdirAll(filepath.Dir(dst), 0755)
 		if err != nil {
-- 
2.43.0


From 9b6c4e3e1fe432b148d295ed79a1b3fc3ec21b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 43/55] fix: filecopy: linking respects the ignored paths, and
 links from a linked dir

---
 support/filecopy/copy.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index e4c4ceb..95e2141 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -154,7 +154,7 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 		return err
 	}
 	if opts.useLink {
-		return LinkFiles(srcDir, targetAbsDir)
+		return linkFiles(srcDir, targetAbsDir, copyOpts)
 	}
 	const BUF_SIZE = 4 * 1024 * 1024 // 4M
 	numGo := opts.concurrent
@@ -425,7 +425,16 @@ func copyFile(src string, dst string, mkdirs bool, buf []byte) error {
 
 // NOTE: sym link must use abs path to ensure the file work correctly
 func LinkFiles(srcDir string, targetDir string) error {
-	absDir, err := filepath.Abs(srcDir)
+	return linkFiles(srcDir, targetDir, nil)
+}
+
+func linkFiles(srcDir string, targetDir string, opts *copyOptions) error {
+	// when srcDir is a link, link the files of the actual dir
+	actualDir, err := filepath.EvalSymlinks(srcDir)
+	if err != nil {
+		return err
+	}
+	absDir, err := filepath.Abs(actualDir)
 	if err != nil {
 		return err
 	}
@@ -440,6 +449,12 @@ func LinkFiles(srcDir string, targetDir string) error {
 		if strings.HasPrefix(relPath, string(os.PathSeparator)) {
 			relPath = relPath[1:]
 		}
+		if relPath != "" && opts != nil && opts.filterSubPath != nil && !opts.filterSubPath(relPath, d.IsDir()) {
+			if d.IsDir() {
+				return filepath.SkipDir
+			}
+			return nil
+		}
 		// if relPath is "", it is root dir
 		targetPath := filepath.Join(targetDir, relPath)
 		if d.IsDir() {
-- 
2.43.0


From 776c6a5a2039bef638b492a2ae456b6024538eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 44/55] fix: fileutil: WalkRelative of the current dir

---
 support/fileutil/walk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/support/fileutil/walk.go b/support/fileutil/walk.go
index af27def..6e4d241 100644
--- a/support/fileutil/walk.go
+++ b/support/fileutil/walk.go
@@ -8,8 +8,11 @@ import (
 // WalkRelative: calculate relative path when walking
 func WalkRelative(root string, h func(path string, relPath string, d fs.DirEntry) error) error {
 	cleanRoot := filepath.Clean(root)
-	n := len(cleanRoot)
-	prefixLen := n + len(string(filepath.Separator))
+	prefixLen := len(cleanRoot) + len(string(filepath.Separator))
+	if cleanRoot == "." {
+		// paths under "." have no prefix
+		prefixLen = 0
+	}
 	return filepath.WalkDir(cleanRoot, func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
-- 
2.43.0


From c60c949f100b86a240ad6bee736bcf446bc9faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 45/55] fix: filecopy: never copy a dir into itself, whatever
 the spelling of the paths

---
 support/filecopy/copy.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/support/filecopy/copy.go b/support/filecopy/copy.go
index 95e2141..da835a8 100644
--- a/support/filecopy/copy.go
+++ b/support/filecopy/copy.go
@@ -137,7 +137,7 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 	if parent == targetAbsDir {
 		return fmt.Errorf("unable to override %v", targetDir)
 	}
-	err = checkOverlap(srcDir, targetAbsDir, !opts.noRm)
+	err = checkOverlap(srcDir, targetAbsDir, !opts.noRm, copyOpts)
 	if err != nil {
 		return err
 	}
@@ -237,8 +237,9 @@ func copyReplaceDir(srcDir string, targetDir string, opts *Options) error {
 }
 
 // checkOverlap checks that creating, and if replace is set removing,
-// the target dir does not destroy the source dir
-func checkOverlap(srcDir string, targetAbsDir string, replace bool) error {
+// the target dir does not destroy the source dir, and that the source
+// dir is not copied into itself
+func checkOverlap(srcDir string, targetAbsDir string, replace bool, opts *copyOptions) error {
 	src, err := filepath.EvalSymlinks(srcDir)
 	if err != nil {
 		// reported when copying
@@ -248,16 +249,39 @@ func checkOverlap(srcDir string, targetAbsDir string, replace bool) error {
 	if err != nil {
 		return err
 	}
-	target, err := filepath.EvalSymlinks(targetAbsDir)
+	sep := string(filepath.Separator)
+
+	// resolve the existing part of target
+	existing := targetAbsDir
+	missing := ""
+	target, err := filepath.EvalSymlinks(existing)
+	for err != nil && filepath.Dir(existing) != existing {
+		missing = filepath.Join(filepath.Base(existing), missing)
+		existing = filepath.Dir(existing)
+		target, err = filepath.EvalSymlinks(existing)
+	}
 	if err != nil {
-		// target does not exist
 		return nil
 	}
-	sep := string(filepath.Separator)
+	target = filepath.Join(target, missing)
+
 	if src == target || (replace && strings.HasPrefix(src+sep, strings.TrimSuffix(target, sep)+sep)) {
 		return fmt.Errorf("unable to override %s: it contains the source dir %s", targetAbsDir, srcDir)
 	}
-	return nil
+	srcPrefix := strings.TrimSuffix(src, sep) + sep
+	if !strings.HasPrefix(target, srcPrefix) {
+		return nil
+	}
+	// inside source: can only be copied if ignored
+	subPath := target[len(srcPrefix):]
+	if opts != nil && opts.filterSubPath != nil {
+		for i := 0; i <= len(subPath); i++ {
+			if (i == len(subPath) || subPath[i] == filepath.Separator) && !opts.filterSubPath(subPath[:i], true) {
+				return nil
+			}
+		}
+	}
+	return fmt.Errorf("cannot copy %s into itself: %s", srcDir, targetAbsDir)
 }
 
 // copy if panic happened, they are converted to error
-- 
2.43.0


From 826a7decc19e2273cdc2d3bf3a578b7bd2fdf5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 46/55] fix: accept parenthesised receiver types when
 instrumenting

func (t (T)) M() and func (t *(T)) M() are valid Go, but made
xgo panic while collecting the declarations of a package.
---
 instrument/ast/recv.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/instrument/ast/recv.go b/instrument/ast/recv.go
index f093fc6..5915361 100644
--- a/instrument/ast/recv.go
+++ b/instrument/ast/recv.go
@@ -38,10 +38,11 @@ func ParseReceiverInfo(fnName string, receiverType ast.Expr) (identityName strin
 // which is the *ast.Ident for the type name portion (e.g., "Type").
 func ParseReceiverType(typeExpr ast.Expr) (ptr bool, generic bool, recvType *ast.Ident) {
 	orig := typeExpr
+	typeExpr = deparen(typeExpr)
 	starExpr, ok := typeExpr.(*ast.StarExpr)
 	if ok {
 		ptr = true
-		typeExpr = starExpr.X
+		typeExpr = deparen(starExpr.X)
 	}
 	indexExpr, ok := typeExpr.(*ast.IndexExpr)
 	if ok {
@@ -54,6 +55,7 @@ func ParseReceiverType(typeExpr ast.Expr) (ptr bool, generic bool, recvType *ast
 			typeExpr = x
 		}
 	}
+	typeExpr = deparen(typeExpr)
 	selExpr, ok := typeExpr.(*ast.SelectorExpr)
 	if ok {
 		return ptr, generic, selExpr.Sel
@@ -64,3 +66,15 @@ func ParseReceiverType(typeExpr ast.Expr) (ptr bool, generic bool, recvType *ast
 	}
 	return ptr, generic, idt
 }
+
+// deparen strips the parentheses, the receiver may be
+// declared as (T), *(T), (*T) etc.
+func deparen(typeExpr ast.Expr) ast.Expr {
+	for {
+		p, ok := typeExpr.(*ast.ParenExpr)
+		if !ok {
+			return typeExpr
+		}
+		typeExpr = p.X
+	}
+}
-- 
2.43.0


From 6610a1e292840ce4a02974ff83206780bc223ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 47/55] fix: do not trap functions with a parameter named nil

The inserted statement compares with nil, so the instrumented
file did not compile.
---
 instrument/instrument_func/trap.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/instrument/instrument_func/trap.go b/instrument/instrument_func/trap.go
index 8ff6713..4a47b24 100644
--- a/instrument/instrument_func/trap.go
+++ b/instrument/instrument_func/trap.go
@@ -100,6 +100,10 @@ func TrapFuncs(editor *goedit.Edit, pkgPath string, file *ast.File, fileIndex in
 		if hasNosplit {
 			continue
 		}
+		if hidesNil(funcDecl) {
+			// the inserted statement refers to nil
+			continue
+		}
 		astReceiver := getReceiver(funcDecl, fset)
 		identityName, recvPtr, recvGeneric, recvType := ParseReceiverInfo(funcName, astReceiver)
 		if config.DEBUG {
@@ -383,3 +387,21 @@ func processFieldNames(fieldList *ast.FieldList, namePrefix string, editor *goed
 
 	return modified, fieldNames
 }
+
+// hidesNil reports whether the function has a receiver, a
+// parameter or a result named nil
+func hidesNil(funcDecl *ast.FuncDecl) bool {
+	for _, fields := range []*ast.FieldList{funcDecl.Recv, funcDecl.Type.Params, funcDecl.Type.Results} {
+		if fields == nil {
+			continue
+		}
+		for _, field := range fields.List {
+			for _, name := range field.Names {
+				if name.Name == "nil" {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
-- 
2.43.0


From 3db2f40228132a2b56782d0f9b79c2d8ccf9a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 48/55] fix: var a, b = f() has no value for each name

The value of the first name was taken to be the tuple returned by
f, and the generated getter did not compile.
---
 instrument/resolve/traverse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instrument/resolve/traverse.go b/instrument/resolve/traverse.go
index 1f27f17..c5038f3 100644
--- a/instrument/resolve/traverse.go
+++ b/instrument/resolve/traverse.go
@@ -39,7 +39,8 @@ func CollectDecls(pkg *edit.Package) {
 									continue
 								}
 								var value ast.Expr
-								if i < len(spec.Values) {
+								// var a, b = f() has one value for all names
+								if len(spec.Values) == len(spec.Names) {
 									value = spec.Values[i]
 								}
 								kind := edit.DeclKindVar
-- 
2.43.0


From 127a356cc73ef2a88368996eaaba6e00e2c4848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 49/55] fix: default types of untyped constants

The getter generated for var v = 'a', 1 + 2.5 or pkg.Const * 1.5
had the wrong type, and did not compile.
---
 instrument/resolve/resolve.go | 61 +++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 2 deletions(-)

diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index c876c92..831b182 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -223,8 +223,11 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			// first op type
 			opValue := c.resolveObject(expr.X)
 			// if untyped literal, resolve the second op
-			if _, ok := opValue.(types.UntypedLiteral); ok {
+			if xType := c.untypedConstType(opValue); xType != nil {
 				opValue = c.resolveObject(expr.Y)
+				if yType := c.untypedConstType(opValue); yType != nil {
+					return untypedBinary(xType, yType)
+				}
 			}
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
@@ -239,6 +242,10 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			if types.IsUnknown(opValue) {
 				return types.Unknown{}
 			}
+			if xType := c.untypedConstType(opValue); xType != nil {
+				// 1.0 << 2 is an integer
+				return untypedBinary(xType, nil)
+			}
 			return types.Value{
 				Type_: opValue.Type(),
 			}
@@ -485,6 +492,56 @@ func validateBasicName(name string) types.Type {
 	return types.Unknown{}
 }
 
+// untypedConstType returns the default type of an untyped
+// constant, or nil if info is something else
+func (c *Scope) untypedConstType(info types.Info) types.Type {
+	switch info := info.(type) {
+	case types.UntypedLiteral:
+		return info.Type_
+	case types.PkgVariable:
+		decl := c.getPkgNameDecl(info.PkgPath, info.Name)
+		if decl == nil || decl.Kind != edit.DeclKindConst || decl.Type != nil || decl.Value == nil {
+			return nil
+		}
+		pkg := c.Global.Packages.GetPackage(info.PkgPath)
+		if pkg == nil {
+			return nil
+		}
+		scope := c.newFileScope(pkg, decl.File)
+		return scope.untypedConstType(scope.resolveInfo(decl.Value))
+	}
+	return nil
+}
+
+// untypedBinary is the constant resulting from an operation on
+// two untyped constants. The later kind of integer, rune and
+// floating-point wins. For shifts y is nil and x must be an integer
+func untypedBinary(x types.Type, y types.Type) types.Info {
+	kinds := []types.Type{types.Basic("int"), types.Basic("rune"), types.Basic("float64")}
+	if y == nil {
+		kinds = kinds[:1]
+		y = x
+	} else if x == y {
+		return types.UntypedLiteral{Type_: x}
+	}
+	res := -1
+	for _, t := range []types.Type{x, y} {
+		idx := -1
+		for i, kind := range kinds {
+			if kind == t {
+				idx = i
+			}
+		}
+		if idx < 0 {
+			return types.Unknown{}
+		}
+		if idx > res {
+			res = idx
+		}
+	}
+	return types.UntypedLiteral{Type_: kinds[res]}
+}
+
 func (c *Scope) setInfo(expr ast.Expr, info types.Info) {
 	if c.Global.ExprInfo == nil {
 		c.Global.ExprInfo = make(map[ast.Expr]types.Info, 1)
@@ -544,7 +601,7 @@ func getBasicLitConstType(kind token.Token) types.Type {
 	case token.STRING:
 		return types.Basic("string")
 	case token.CHAR:
-		return types.Basic("byte")
+		return types.Basic("rune")
 	case token.FLOAT:
 		return types.Basic("float64")
 	}
-- 
2.43.0


From 9dd49d6e5d6a65e24e12819f1d559699f63772fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 50/55] fix: names declared by a case of select hide package
 variables

---
 instrument/resolve/stmt.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/instrument/resolve/stmt.go b/instrument/resolve/stmt.go
index ba73aa8..a79d1eb 100644
--- a/instrument/resolve/stmt.go
+++ b/instrument/resolve/stmt.go
@@ -142,8 +142,13 @@ func (c *Scope) traverseStmt(node ast.Stmt) {
 		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
 	case *ast.CommClause:
 		// select {...}
-		// TODO: handle name introduced in case
-		c.traverseBlockStmt(&ast.BlockStmt{List: node.Body})
+		// names introduced in case are visible in its body
+		list := make([]ast.Stmt, 0, 1+len(node.Body))
+		if node.Comm != nil {
+			list = append(list, node.Comm)
+		}
+		list = append(list, node.Body...)
+		c.traverseBlockStmt(&ast.BlockStmt{List: list})
 	case *ast.SendStmt:
 		// ignore
 		c.traverseExpr(node.Chan)
-- 
2.43.0


From 182bd7dc7fa82683c3243e78056bd7925756c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 51/55] fix: keep package variables addressable and constant
 where Go requires it

&V.A.B, &V[i], &(V), V.Arr[:], (&V).M(), V[i].PtrMethod() and pointer
methods promoted from embedded fields (e.g. a struct embedding
sync.Mutex) were rewritten to go through the value returned by the
getter of V, and the instrumented file did not compile. So did
len(arr) in places requiring a constant.

Promoted fields and methods are now resolved, and expressions
that need the storage of a variable either take its address through
the getter or are left alone, as &V.Field already was.
---
 instrument/resolve/addressable.go     | 175 ++++++++++++++++++++++++++
 instrument/resolve/collect_var_ref.go |  19 ++-
 instrument/resolve/decl.go            |  12 +-
 instrument/resolve/expr.go            |  59 +++++----
 instrument/resolve/resolve.go         | 118 +++++++++++++++--
 instrument/resolve/types/type.go      |   5 +-
 6 files changed, 353 insertions(+), 35 deletions(-)
 create mode 100644 instrument/resolve/addressable.go

diff --git a/instrument/resolve/addressable.go b/instrument/resolve/addressable.go
new file mode 100644
index 0000000..018f89a
--- /dev/null
+++ b/instrument/resolve/addressable.go
@@ -0,0 +1,175 @@
+package resolve
+
+import (
+	"go/ast"
+
+	"github.com/xhd2015/xgo/instrument/resolve/types"
+)
+
+// operandType returns the type of an expression denoting a
+// variable, a field of a variable or an element of a variable
+func (c *Scope) operandType(expr ast.Expr) types.Type {
+	expr = deparen(expr)
+	switch expr := expr.(type) {
+	case *ast.IndexExpr:
+		switch typ := underlying(c.operandType(expr.X)).(type) {
+		case types.Array:
+			return types.ResolveLazy(typ.Elem)
+		case types.Slice:
+			return types.ResolveLazy(typ.Elem)
+		case types.Map:
+			return types.ResolveLazy(typ.Value)
+		case types.RawPtr:
+			if arr, ok := typ.Elem.(types.Array); ok {
+				return types.ResolveLazy(arr.Elem)
+			}
+		}
+		return types.Unknown{}
+	case *ast.SelectorExpr:
+		obj := c.resolveObject(expr)
+		if types.IsUnknown(obj) {
+			obj = c.resolveFieldToObject(c.operandType(expr.X), expr.Sel.Name, nil)
+		}
+		return variableType(obj)
+	case *ast.Ident:
+		return variableType(c.resolveObject(expr))
+	}
+	obj := c.resolveObject(expr)
+	if types.IsUnknown(obj) {
+		return types.Unknown{}
+	}
+	return types.ResolveLazy(obj.Type())
+}
+
+// variableType returns the type of a variable, which may have been
+// marked as being accessed through its address
+func variableType(obj types.Object) types.Type {
+	if ptr, ok := obj.(types.Pointer); ok {
+		obj = ptr.Value
+	}
+	if types.IsUnknown(obj) {
+		return types.Unknown{}
+	}
+	typ := obj.Type()
+	if typ == nil {
+		return types.Unknown{}
+	}
+	return types.ResolveLazy(typ)
+}
+
+func underlying(typ types.Type) types.Type {
+	if typ == nil || types.IsUnknown(typ) {
+		return types.Unknown{}
+	}
+	return typ.Underlying()
+}
+
+// isArray checks if expr is known to be an array, or a pointer to array
+func (c *Scope) isArray(expr ast.Expr) bool {
+	typ := underlying(c.operandType(expr))
+	if ptr, ok := typ.(types.RawPtr); ok {
+		typ = ptr.Elem
+	}
+	_, ok := typ.(types.Array)
+	return ok
+}
+
+// isValueArray checks if expr is possibly an array, indexing or
+// slicing of which goes to the variable itself
+func (c *Scope) isValueArray(expr ast.Expr) bool {
+	switch underlying(c.operandType(expr)).(type) {
+	case types.Unknown, types.Array:
+		return true
+	}
+	return false
+}
+
+// traverseAddressable traverses an expression that must stay
+// addressable, e.g. &A.B.C or A.Arr[:]. A variable whose own storage is
+// referred to cannot be replaced by the value returned from its getter.
+func (c *Scope) traverseAddressable(expr ast.Expr) {
+	switch expr := deparen(expr).(type) {
+	case *ast.Ident:
+		// keep
+	case *ast.SelectorExpr:
+		if _, ok := c.resolveInfo(expr.X).(types.ImportPath); ok {
+			// pkg.A
+			return
+		}
+		if _, ok := underlying(c.operandType(expr.X)).(types.RawPtr); ok {
+			c.traverseExpr(expr)
+			return
+		}
+		c.traverseAddressable(expr.X)
+	case *ast.IndexExpr:
+		if c.isValueArray(expr.X) {
+			c.traverseAddressable(expr.X)
+		} else {
+			c.traverseExpr(expr.X)
+		}
+		c.traverseExpr(expr.Index)
+	default:
+		c.traverseExpr(expr)
+	}
+}
+
+// markPtrMethodOperand handles x.M where it's not known what M is.
+// If it could be a method with pointer receiver, the variable must
+// be accessed through its address.
+func (c *Scope) markPtrMethodOperand(sel *ast.SelectorExpr) {
+	info := c.resolveInfo(sel)
+	if !types.IsUnknown(info) {
+		return
+	}
+	typ := c.operandType(sel.X)
+	if !types.IsUnknown(typ) {
+		var isPtrMethod bool
+		obj := c.resolveFieldToObject(typ, sel.Sel.Name, func() {
+			isPtrMethod = true
+		})
+		if !types.IsUnknown(obj) && !isPtrMethod {
+			return
+		}
+		if types.IsUnknown(obj) {
+			if _, ok := underlying(typ).(types.Struct); !ok {
+				return
+			}
+		}
+	}
+	expr := deparen(sel.X)
+	for {
+		switch x := expr.(type) {
+		case *ast.Ident:
+			c.markAddr(x)
+			return
+		case *ast.SelectorExpr:
+			if _, ok := c.resolveInfo(x.X).(types.ImportPath); ok {
+				c.markAddr(x)
+				c.markAddr(x.Sel)
+				return
+			}
+			if _, ok := underlying(c.operandType(x.X)).(types.RawPtr); ok {
+				return
+			}
+			expr = deparen(x.X)
+		case *ast.IndexExpr:
+			if !c.isValueArray(x.X) {
+				return
+			}
+			expr = deparen(x.X)
+		default:
+			return
+		}
+	}
+}
+
+func (c *Scope) markAddr(expr ast.Expr) {
+	pkgVar, ok := c.resolveInfo(expr).(types.PkgVariable)
+	if !ok {
+		return
+	}
+	switch underlying(pkgVar.Type()).(type) {
+	case types.Struct, types.Array:
+		c.setInfo(expr, types.Pointer{Value: pkgVar})
+	}
+}
diff --git a/instrument/resolve/collect_var_ref.go b/instrument/resolve/collect_var_ref.go
index 507bc06..87badf9 100644
--- a/instrument/resolve/collect_var_ref.go
+++ b/instrument/resolve/collect_var_ref.go
@@ -34,7 +34,12 @@ func (c *Scope) collectSelector(addr *ast.UnaryExpr, sel *ast.SelectorExpr) bool
 	// instead of the selector
 	expr := sel.X
 	var originalSel *ast.SelectorExpr
-	_, ok := selInfo.(types.PkgVariable)
+	pkgInfo := selInfo
+	if ptr, ok := pkgInfo.(types.Pointer); ok {
+		// accessed by address
+		pkgInfo = ptr.Value
+	}
+	_, ok := pkgInfo.(types.PkgVariable)
 	if ok {
 		expr = sel.Sel
 		// This is pkg.VarName, not variable.Field
@@ -50,6 +55,18 @@ func (c *Scope) collectSelector(addr *ast.UnaryExpr, sel *ast.SelectorExpr) bool
 
 func (c *Scope) collectVarRef(addr *ast.UnaryExpr, expr ast.Expr, originalSel *ast.SelectorExpr) bool {
 	expr = deparen(expr)
+	if unary, ok := expr.(*ast.UnaryExpr); ok && unary.Op == token.AND && addr == nil {
+		// (&A).B
+		x := deparen(unary.X)
+		info, ok := c.resolveInfo(x).(types.PkgVariable)
+		if !ok || types.IsPointer(info.Type()) {
+			return false
+		}
+		if sel, ok := x.(*ast.SelectorExpr); ok {
+			x = sel.Sel
+		}
+		return c.collectVarRef(unary, x, nil)
+	}
 	exprInfo := c.resolveInfo(expr)
 	obj, ok := exprInfo.(types.Object)
 	if !ok {
diff --git a/instrument/resolve/decl.go b/instrument/resolve/decl.go
index 65dff9d..11af1ff 100644
--- a/instrument/resolve/decl.go
+++ b/instrument/resolve/decl.go
@@ -1,6 +1,9 @@
 package resolve
 
-import "go/ast"
+import (
+	"go/ast"
+	"go/token"
+)
 
 func (ctx *Scope) traverseDecl(node ast.Decl) {
 	if node == nil {
@@ -15,8 +18,11 @@ func (ctx *Scope) traverseDecl(node ast.Decl) {
 					ctx.Add(spec.Name.Name)
 				}
 			case *ast.ValueSpec:
-				for _, value := range spec.Values {
-					ctx.traverseExpr(value)
+				// the value of a constant must stay constant, e.g. len(arr)
+				if node.Tok != token.CONST {
+					for _, value := range spec.Values {
+						ctx.traverseExpr(value)
+					}
 				}
 				// name after values
 				for _, name := range spec.Names {
diff --git a/instrument/resolve/expr.go b/instrument/resolve/expr.go
index addf4b5..f2210a2 100644
--- a/instrument/resolve/expr.go
+++ b/instrument/resolve/expr.go
@@ -3,8 +3,6 @@ package resolve
 import (
 	"go/ast"
 	"go/token"
-
-	"github.com/xhd2015/xgo/instrument/resolve/types"
 )
 
 func (ctx *Scope) traverseExprs(nodes []ast.Expr) {
@@ -41,12 +39,38 @@ func (c *Scope) traverseCallExpr(callExpr *ast.CallExpr) {
 	if !isSelector {
 		c.traverseExpr(fn)
 	}
+	if c.isConstantLen(callExpr) {
+		return
+	}
 
 	for _, arg := range callExpr.Args {
 		c.traverseExpr(arg)
 	}
 }
 
+// isConstantLen checks if the call is len(arr) or cap(arr), which
+// is a constant when arr is a variable of array type
+func (c *Scope) isConstantLen(callExpr *ast.CallExpr) bool {
+	fn, ok := callExpr.Fun.(*ast.Ident)
+	if !ok || (fn.Name != "len" && fn.Name != "cap") || len(callExpr.Args) != 1 {
+		return false
+	}
+	if c.Has(fn.Name) || c.Package.Package.Decls[fn.Name] != nil {
+		return false
+	}
+	arg := deparen(callExpr.Args[0])
+	for x := arg; ; {
+		switch e := x.(type) {
+		case *ast.Ident:
+			return c.isArray(arg)
+		case *ast.SelectorExpr:
+			x = deparen(e.X)
+		default:
+			return false
+		}
+	}
+}
+
 func isIdent(expr ast.Expr) bool {
 	_, ok := expr.(*ast.Ident)
 	return ok
@@ -70,36 +94,24 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		if c.collectSelector(nil, node) {
 			return
 		}
+		c.markPtrMethodOperand(node)
 		c.traverseExpr(node.X)
 	case *ast.UnaryExpr:
 		// take addr
 		if node.Op == token.AND {
-			switch x := node.X.(type) {
+			x := deparen(node.X)
+			switch x := x.(type) {
 			case *ast.Ident:
 				if c.collectIdent(node, x) {
 					return
 				}
 			case *ast.SelectorExpr:
-				collected := c.collectSelector(node, x)
-				if collected {
+				if c.collectSelector(node, x) {
 					return
 				}
-				// If collectSelector returned false, check if it's because we detected
-				// the &pkgVar.Field pattern and skipped it. If so, we should not traverse
-				// into the selector to avoid collecting the base variable separately.
-				xInfo := c.resolveInfo(x.X)
-				if obj, ok := xInfo.(types.Object); ok {
-					// Unwrap Pointer if present
-					if ptrObj, ok := obj.(types.Pointer); ok {
-						obj = ptrObj.Value
-					}
-					// Check if it's a package variable
-					if _, ok := obj.(types.PkgVariable); ok {
-						// This is &pkgVar.Field pattern that was skipped, don't traverse
-						return
-					}
-				}
 			}
+			c.traverseAddressable(x)
+			return
 		}
 		c.traverseExpr(node.X)
 	case *ast.CallExpr:
@@ -130,9 +142,14 @@ func (c *Scope) traverseExpr(node ast.Expr) {
 		c.traverseExpr(node.Index)
 	case *ast.SliceExpr:
 		// something[...:...], only traverse the index
-		c.traverseExpr(node.X)
+		if c.isValueArray(node.X) {
+			c.traverseAddressable(node.X)
+		} else {
+			c.traverseExpr(node.X)
+		}
 		c.traverseExpr(node.Low)
 		c.traverseExpr(node.High)
+		c.traverseExpr(node.Max)
 	case *ast.ChanType:
 		// chan something
 	case *ast.MapType:
diff --git a/instrument/resolve/resolve.go b/instrument/resolve/resolve.go
index 831b182..1d09a0b 100644
--- a/instrument/resolve/resolve.go
+++ b/instrument/resolve/resolve.go
@@ -317,21 +317,22 @@ func (c *Scope) doResolveInfo(expr ast.Expr) types.Info {
 			Type_: typ,
 		}
 	case *ast.StructType:
-		fields := make([]types.StructField, len(expr.Fields.List))
-		for i, field := range expr.Fields.List {
+		fields := make([]types.StructField, 0, len(expr.Fields.List))
+		for _, field := range expr.Fields.List {
 			typ := c.lazyResolveType(field.Type)
 			if len(field.Names) > 0 {
 				for _, name := range field.Names {
-					fields[i] = types.StructField{
+					fields = append(fields, types.StructField{
 						Name: name.Name,
 						Type: typ,
-					}
+					})
 				}
 			} else {
-				fields[i] = types.StructField{
-					Name: getEmbedFieldName(field.Type),
-					Type: typ,
-				}
+				fields = append(fields, types.StructField{
+					Name:     getEmbedFieldName(field.Type),
+					Type:     typ,
+					Embedded: true,
+				})
 			}
 		}
 		return types.Struct{
@@ -784,7 +785,108 @@ func (c *Scope) resolveFieldToObject(valType types.Type, fieldName string, onDet
 					// }
 					return v
 				}
+				return c.resolvePromoted(ud, fieldName, isPtr, onDetectedPointer)
+			}
+		}
+	} else if ud, ok := resolveType.(types.Struct); ok {
+		for _, field := range ud.Fields {
+			if field.Name == fieldName {
+				return fieldValue(field)
+			}
+		}
+		return c.resolvePromoted(ud, fieldName, isPtr, onDetectedPointer)
+	}
+	return types.Unknown{}
+}
+
+func fieldValue(field types.StructField) types.Object {
+	fieldType := types.ResolveLazy(field.Type)
+	if fieldType == nil || types.IsUnknown(fieldType) {
+		return types.Unknown{}
+	}
+	return types.Value{Type_: fieldType}
+}
+
+// resolvePromoted finds a field or method promoted from the embedded
+// fields of a struct, the shallowest one is selected
+func (c *Scope) resolvePromoted(ud types.Struct, fieldName string, isPtr bool, onDetectedPointer func()) types.Object {
+	type embedded struct {
+		typ   types.Type
+		isPtr bool
+	}
+	visited := make(map[PkgName]bool)
+	structs := []types.Struct{ud}
+	ptrs := []bool{isPtr}
+	for len(structs) > 0 {
+		var list []embedded
+		for i, st := range structs {
+			for _, field := range st.Fields {
+				if field.Embedded {
+					list = append(list, embedded{typ: field.Type, isPtr: ptrs[i]})
+				}
+			}
+		}
+		structs, ptrs = nil, nil
+		var unknown bool
+		for _, embed := range list {
+			typ := types.ResolveLazy(embed.typ)
+			isPtr := embed.isPtr
+			if ptr, ok := typ.(types.PtrType); ok {
+				isPtr = true
+				typ = types.ResolveLazy(ptr.Elem)
+			}
+			if inst, ok := typ.(types.GenericInstanceType); ok {
+				typ = inst.Type
+			}
+			namedType, ok := typ.(types.NamedType)
+			if !ok {
+				unknown = true
+				continue
+			}
+			namedType = types.ResolveAlias(namedType)
+			name := PkgName{PkgPath: namedType.PkgPath, Name: namedType.Name}
+			if visited[name] {
+				continue
+			}
+			visited[name] = true
+			decl := c.getPkgNameDecl(namedType.PkgPath, namedType.Name)
+			if decl == nil {
+				unknown = true
+				continue
+			}
+			if method := decl.Methods[fieldName]; method != nil {
+				if !isPtr && method.RecvPtr && onDetectedPointer != nil {
+					onDetectedPointer()
+				}
+				return types.PkgTypeMethod{
+					Name: fieldName,
+					Recv: namedType,
+				}
+			}
+			under := namedType.Underlying()
+			if ptr, ok := under.(types.RawPtr); ok {
+				// type alias = *Struct
+				isPtr = true
+				under = ptr.Elem
 			}
+			st, ok := under.(types.Struct)
+			if !ok {
+				switch under.(type) {
+				case types.Interface, types.Unknown:
+					unknown = true
+				}
+				continue
+			}
+			for _, field := range st.Fields {
+				if field.Name == fieldName {
+					return fieldValue(field)
+				}
+			}
+			structs = append(structs, st)
+			ptrs = append(ptrs, isPtr)
+		}
+		if unknown {
+			break
 		}
 	}
 	return types.Unknown{}
diff --git a/instrument/resolve/types/type.go b/instrument/resolve/types/type.go
index 022c98d..91193e9 100644
--- a/instrument/resolve/types/type.go
+++ b/instrument/resolve/types/type.go
@@ -125,8 +125,9 @@ type Struct struct {
 }
 
 type StructField struct {
-	Name string
-	Type Type
+	Name     string
+	Type     Type
+	Embedded bool
 }
 
 type Interface struct {
-- 
2.43.0


From dc054a50e98af6bf7ba9c25e06461fbfe7942bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 52/55] fix: overlay: files with a byte order mark compile

---
 instrument/overlay/overlay.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instrument/overlay/overlay.go b/instrument/overlay/overlay.go
index 2e1af9f..1fdbdc0 100644
--- a/instrument/overlay/overlay.go
+++ b/instrument/overlay/overlay.go
@@ -198,6 +198,8 @@ func (o Overlay) MakeGoOverlay(overlayDir string, opts Options) (*GoOverlay, err
 			}
 			content := fileOverlay.Content
 			if !noLineDirective {
+				// a byte order mark is only allowed at the beginning of a file
+				content = strings.TrimPrefix(content, "\uFEFF")
 				content = patch.FmtLineDirective(string(fileOverlay.spellings[len(fileOverlay.spellings)-1]), 1) + "\n" + content
 			}
 			err = os.WriteFile(writeFile, []byte(content), 0644)
-- 
2.43.0


From 246406bc6a55bd40d9b433d367b524ce86b81c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 53/55] fix: rebuild the cover tool when patching from files,
 so coverage is that of the original code

---
 cmd/xgo/asset/patches/go1.24/__config__.json | 28 ++++++++++++++++++++
 cmd/xgo/asset/patches/go1.25/__config__.json | 28 ++++++++++++++++++++
 cmd/xgo/asset/patches/go1.26/__config__.json | 28 ++++++++++++++++++++
 cmd/xgo/asset/patches/go1.27/__config__.json | 28 ++++++++++++++++++++
 cmd/xgo/patch.go                             |  2 +-
 patches/go1.24/__config__.json               | 28 ++++++++++++++++++++
 patches/go1.25/__config__.json               | 28 ++++++++++++++++++++
 patches/go1.26/__config__.json               | 28 ++++++++++++++++++++
 patches/go1.27/__config__.json               | 28 ++++++++++++++++++++
 9 files changed, 225 insertions(+), 1 deletion(-)

diff --git a/cmd/xgo/asset/patches/go1.24/__config__.json b/cmd/xgo/asset/patches/go1.24/__config__.json
index 1252777..e1087c4 100755
--- a/cmd/xgo/asset/patches/go1.24/__config__.json
+++ b/cmd/xgo/asset/patches/go1.24/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
diff --git a/cmd/xgo/asset/patches/go1.25/__config__.json b/cmd/xgo/asset/patches/go1.25/__config__.json
index 9715b3e..fb9df8e 100755
--- a/cmd/xgo/asset/patches/go1.25/__config__.json
+++ b/cmd/xgo/asset/patches/go1.25/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
diff --git a/cmd/xgo/asset/patches/go1.26/__config__.json b/cmd/xgo/asset/patches/go1.26/__config__.json
index 9cb2ead..7aa80ac 100755
--- a/cmd/xgo/asset/patches/go1.26/__config__.json
+++ b/cmd/xgo/asset/patches/go1.26/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
diff --git a/cmd/xgo/asset/patches/go1.27/__config__.json b/cmd/xgo/asset/patches/go1.27/__config__.json
index 753ae04..45738d7 100755
--- a/cmd/xgo/asset/patches/go1.27/__config__.json
+++ b/cmd/xgo/asset/patches/go1.27/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
diff --git a/cmd/xgo/patch.go b/cmd/xgo/patch.go
index d477740..4ae75b8 100644
--- a/cmd/xgo/patch.go
+++ b/cmd/xgo/patch.go
@@ -99,7 +99,7 @@ func patchRuntime(origGoroot string, goroot string, xgoSrc string, goVersion *go
 		}
 		var skipKinds []string
 		if skipRebuildCompilerAndGo {
-			skipKinds = []string{"rebuild-compiler", "rebuild-go"}
+			skipKinds = []string{"rebuild-compiler", "rebuild-go", "rebuild-cover"}
 		}
 		return patch.ApplyPatches(patchDir, goroot, xgoSrc, extraEnv, skipKinds, mkbuiltinHandler)
 	}
diff --git a/patches/go1.24/__config__.json b/patches/go1.24/__config__.json
index 1252777..e1087c4 100644
--- a/patches/go1.24/__config__.json
+++ b/patches/go1.24/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
diff --git a/patches/go1.25/__config__.json b/patches/go1.25/__config__.json
index 9715b3e..fb9df8e 100644
--- a/patches/go1.25/__config__.json
+++ b/patches/go1.25/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
diff --git a/patches/go1.26/__config__.json b/patches/go1.26/__config__.json
index 9cb2ead..7aa80ac 100644
--- a/patches/go1.26/__config__.json
+++ b/patches/go1.26/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
diff --git a/patches/go1.27/__config__.json b/patches/go1.27/__config__.json
index 753ae04..45738d7 100644
--- a/patches/go1.27/__config__.json
+++ b/patches/go1.27/__config__.json
@@ -98,6 +98,34 @@
       "outputs": [
         "bin/go"
       ]
+    },
+    {
+      "kind": "rebuild-cover",
+      "cwd": "${INSTRUMENT_GOROOT}/src/cmd",
+      "cmd": [
+        "${INSTRUMENT_GOROOT}/bin/go",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover",
+        "cmd/cover"
+      ],
+      "cmd_windows": [
+        "${INSTRUMENT_GOROOT}/bin/go.exe",
+        "build",
+        "-o",
+        "${INSTRUMENT_GOROOT}/pkg/tool/${GOOS}_${GOARCH}/cover.exe",
+        "cmd/cover"
+      ],
+      "comments": [
+        "rebuild the cover tool with the xgo edits hook (xgo_cover.go), otherwise coverage is that of the instrumented code instead of the original",
+        "GO_BYPASS_XGO prevents the instrumented go binary's xgoPrecheck hook from delegating back to xgo."
+      ],
+      "env": {
+        "GO_BYPASS_XGO": "true"
+      },
+      "outputs": [
+        "pkg/tool/${GOOS}_${GOARCH}/cover"
+      ]
     }
   ]
 }
\ No newline at end of file
-- 
2.43.0


From 2e8a644a8474100617c83a1f1f0dfb452f0034b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 54/55] fix: trace: errors, panics, long and deep values are
 recorded as valid JSON

---
 .../runtime_gen/internal/runtime/marshal.go   | 15 ++++++-
 .../asset/runtime_gen/internal/trap/object.go | 44 ++++++++++++++++++-
 .../asset/runtime_gen/internal/trap/var.go    |  2 +-
 runtime/internal/runtime/marshal.go           | 15 ++++++-
 runtime/internal/trap/object.go               | 44 ++++++++++++++++++-
 runtime/internal/trap/var.go                  |  2 +-
 6 files changed, 112 insertions(+), 10 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
index 4b2e97e..3505f6f 100755
--- a/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
+++ b/cmd/xgo/asset/runtime_gen/internal/runtime/marshal.go
@@ -27,12 +27,23 @@ func MarshalNoError(v interface{}) (result []byte) {
 		}
 		var qstackTrace string
 		if len(stackTrace) > 0 {
-			qstackTrace = fmt.Sprintf(", %q: %q", "stackTrace", string(stackTrace))
+			qstackTrace = fmt.Sprintf(", %q: %s", "stackTrace", QuoteJSON(string(stackTrace)))
 		}
 		if err != nil {
-			result = []byte(fmt.Sprintf("{%q: %q%s}", "error", err.Error(), qstackTrace))
+			// Sprint tolerates an Error() that panics
+			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", QuoteJSON(fmt.Sprint(err)), qstackTrace))
 		}
 	}()
 	result, err = json.Marshal(v)
 	return
 }
+
+// QuoteJSON quotes s as JSON string, unlike %q which
+// quotes it as go string, e.g. \x7f
+func QuoteJSON(s string) []byte {
+	result, err := json.Marshal(s)
+	if err != nil {
+		return []byte(`""`)
+	}
+	return result
+}
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/object.go b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
index 29ed304..b9e5764 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/object.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/object.go
@@ -13,6 +13,10 @@ import (
 // default size to shrink 1M
 const DEFAULT_SIZE_LIMIT = 1 * 1024 * 1024
 
+// values nested deeper than this are recorded as text, because
+// encoding/json rejects a trace nested deeper than 10000 as a whole
+const DEFAULT_DEPTH_LIMIT = 1000
+
 type object []field
 
 type field struct {
@@ -110,9 +114,9 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		if name == "" {
 			fieldName = fmt.Sprintf("__field_%d", i)
 		}
-		res := runtime.MarshalNoError(c.Values[i])
+		res := marshalValue(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
-			fields[i] = fmt.Sprintf("%q: %q", fieldName, string(res[:DEFAULT_SIZE_LIMIT]))
+			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.QuoteJSON(string(res[:DEFAULT_SIZE_LIMIT])))
 		} else {
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, res)
 		}
@@ -120,6 +124,42 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 	return []byte(fmt.Sprintf("{%s}", strings.Join(fields, ","))), nil
 }
 
+func marshalValue(v interface{}) []byte {
+	res := runtime.MarshalNoError(v)
+	if exceedsDepth(res, DEFAULT_DEPTH_LIMIT) {
+		return runtime.QuoteJSON(string(res))
+	}
+	return res
+}
+
+// exceedsDepth tells whether arrays and objects of
+// the given valid JSON are nested deeper than limit
+func exceedsDepth(data []byte, limit int) bool {
+	depth := 0
+	inString := false
+	for i := 0; i < len(data); i++ {
+		switch data[i] {
+		case '\\':
+			i++
+		case '"':
+			inString = !inString
+		case '{', '[':
+			if inString {
+				continue
+			}
+			depth++
+			if depth > limit {
+				return true
+			}
+		case '}', ']':
+			if !inString {
+				depth--
+			}
+		}
+	}
+	return false
+}
+
 type ptrType int
 
 const (
diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/var.go b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
index c038a7e..57bee75 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/var.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/var.go
@@ -163,7 +163,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 	_, file, line, _ := runtime.Caller(SKIP + 2)
 	end := xgo_runtime.XgoRealTimeNow()
 	endNs := end.UnixNano() - stk.Begin.UnixNano()
-	resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(res))
+	resultsJSON := json.RawMessage(marshalValue(res))
 	// Single locked push+finish so export cannot race with var trap records.
 	cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
 		cur.File = file
diff --git a/runtime/internal/runtime/marshal.go b/runtime/internal/runtime/marshal.go
index 4b2e97e..3505f6f 100644
--- a/runtime/internal/runtime/marshal.go
+++ b/runtime/internal/runtime/marshal.go
@@ -27,12 +27,23 @@ func MarshalNoError(v interface{}) (result []byte) {
 		}
 		var qstackTrace string
 		if len(stackTrace) > 0 {
-			qstackTrace = fmt.Sprintf(", %q: %q", "stackTrace", string(stackTrace))
+			qstackTrace = fmt.Sprintf(", %q: %s", "stackTrace", QuoteJSON(string(stackTrace)))
 		}
 		if err != nil {
-			result = []byte(fmt.Sprintf("{%q: %q%s}", "error", err.Error(), qstackTrace))
+			// Sprint tolerates an Error() that panics
+			result = []byte(fmt.Sprintf("{%q: %s%s}", "error", QuoteJSON(fmt.Sprint(err)), qstackTrace))
 		}
 	}()
 	result, err = json.Marshal(v)
 	return
 }
+
+// QuoteJSON quotes s as JSON string, unlike %q which
+// quotes it as go string, e.g. \x7f
+func QuoteJSON(s string) []byte {
+	result, err := json.Marshal(s)
+	if err != nil {
+		return []byte(`""`)
+	}
+	return result
+}
diff --git a/runtime/internal/trap/object.go b/runtime/internal/trap/object.go
index 29ed304..b9e5764 100644
--- a/runtime/internal/trap/object.go
+++ b/runtime/internal/trap/object.go
@@ -13,6 +13,10 @@ import (
 // default size to shrink 1M
 const DEFAULT_SIZE_LIMIT = 1 * 1024 * 1024
 
+// values nested deeper than this are recorded as text, because
+// encoding/json rejects a trace nested deeper than 10000 as a whole
+const DEFAULT_DEPTH_LIMIT = 1000
+
 type object []field
 
 type field struct {
@@ -110,9 +114,9 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 		if name == "" {
 			fieldName = fmt.Sprintf("__field_%d", i)
 		}
-		res := runtime.MarshalNoError(c.Values[i])
+		res := marshalValue(c.Values[i])
 		if len(res) > DEFAULT_SIZE_LIMIT {
-			fields[i] = fmt.Sprintf("%q: %q", fieldName, string(res[:DEFAULT_SIZE_LIMIT]))
+			fields[i] = fmt.Sprintf("%q: %s", fieldName, runtime.QuoteJSON(string(res[:DEFAULT_SIZE_LIMIT])))
 		} else {
 			fields[i] = fmt.Sprintf("%q: %s", fieldName, res)
 		}
@@ -120,6 +124,42 @@ func (c *structValue) MarshalJSON() ([]byte, error) {
 	return []byte(fmt.Sprintf("{%s}", strings.Join(fields, ","))), nil
 }
 
+func marshalValue(v interface{}) []byte {
+	res := runtime.MarshalNoError(v)
+	if exceedsDepth(res, DEFAULT_DEPTH_LIMIT) {
+		return runtime.QuoteJSON(string(res))
+	}
+	return res
+}
+
+// exceedsDepth tells whether arrays and objects of
+// the given valid JSON are nested deeper than limit
+func exceedsDepth(data []byte, limit int) bool {
+	depth := 0
+	inString := false
+	for i := 0; i < len(data); i++ {
+		switch data[i] {
+		case '\\':
+			i++
+		case '"':
+			inString = !inString
+		case '{', '[':
+			if inString {
+				continue
+			}
+			depth++
+			if depth > limit {
+				return true
+			}
+		case '}', ']':
+			if !inString {
+				depth--
+			}
+		}
+	}
+	return false
+}
+
 type ptrType int
 
 const (
diff --git a/runtime/internal/trap/var.go b/runtime/internal/trap/var.go
index c038a7e..57bee75 100644
--- a/runtime/internal/trap/var.go
+++ b/runtime/internal/trap/var.go
@@ -163,7 +163,7 @@ func doTrapVar(funcInfo *core.FuncInfo, stk *stack.Stack, begin time.Time, traci
 	_, file, line, _ := runtime.Caller(SKIP + 2)
 	end := xgo_runtime.XgoRealTimeNow()
 	endNs := end.UnixNano() - stk.Begin.UnixNano()
-	resultsJSON := json.RawMessage(xgo_runtime.MarshalNoError(res))
+	resultsJSON := json.RawMessage(marshalValue(res))
 	// Single locked push+finish so export cannot race with var trap records.
 	cur, oldTop := stk.PushNew(begin, funcInfo.Name, func(cur *stack.Entry) {
 		cur.File = file
-- 
2.43.0


From d5f927963db5cd39964818dd05e71f108badb604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 55/55] fix: trace: survive panics with cyclic values and deep
 recursion

---
 .../asset/runtime_gen/internal/trap/trap.go   | 125 +++++++++++++++++-
 runtime/internal/trap/trap.go                 | 125 +++++++++++++++++-
 2 files changed, 242 insertions(+), 8 deletions(-)

diff --git a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
index e633ab9..1cae5e4 100755
--- a/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
+++ b/cmd/xgo/asset/runtime_gen/internal/trap/trap.go
@@ -409,7 +409,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					break
 				}
 			}
-			errStr = fmt.Sprint(pe)
+			errStr = sprintPanic(pe)
 		}
 
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
@@ -442,7 +442,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
 				os.MkdirAll(filepath.Dir(outputFile), 0755)
 
-				exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
+				exportedStackJSON := marshalStack(exportedStack)
 				err := os.WriteFile(outputFile, exportedStackJSON, 0644)
 				if err != nil {
 					fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
@@ -454,7 +454,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					})
 				}
 				if stackData.stackOutputFile != "" {
-					exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
+					exportedStackJSON := marshalStack(exportedStack)
 					err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644)
 					if err != nil {
 						fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
@@ -514,6 +514,123 @@ func isUnwinding() bool {
 	}
 }
 
+// sprintPanic formats the value of a panic. Values that contain themselves
+// would overflow the stack, so only their type is shown.
+func sprintPanic(pe interface{}) string {
+	v := reflect.ValueOf(pe)
+	if v.Kind() == reflect.Ptr {
+		v = v.Elem()
+	}
+	if containsItself(v, nil) {
+		return fmt.Sprintf("(%T)", pe)
+	}
+	return fmt.Sprint(pe)
+}
+
+// containsItself tells whether v contains itself by
+// the links fmt follows: maps, slices and interfaces
+func containsItself(v reflect.Value, parents []uintptr) bool {
+	switch v.Kind() {
+	case reflect.Map, reflect.Slice:
+		if v.Len() == 0 {
+			return false
+		}
+		ptr := v.Pointer()
+		for _, parent := range parents {
+			if parent == ptr {
+				return true
+			}
+		}
+		parents = append(parents, ptr)
+	}
+	switch v.Kind() {
+	case reflect.Interface:
+		return containsItself(v.Elem(), parents)
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			if containsItself(v.Field(i), parents) {
+				return true
+			}
+		}
+	case reflect.Map:
+		for _, key := range v.MapKeys() {
+			if containsItself(key, parents) || containsItself(v.MapIndex(key), parents) {
+				return true
+			}
+		}
+	case reflect.Slice, reflect.Array:
+		switch v.Type().Elem().Kind() {
+		case reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice, reflect.Array:
+			for i := 0; i < v.Len(); i++ {
+				if containsItself(v.Index(i), parents) {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
+// calls nested deeper than this are cut from the json, because
+// encoding/json rejects a trace nested deeper than 10000 as a
+// whole (each call takes 2 levels)
+const maxCallDepth = 4000
+
+func marshalStack(data *stack_model.Stack) []byte {
+	if data != nil {
+		limited := *data
+		limited.Children = limitDepth(data.Children, maxCallDepth)
+		data = &limited
+	}
+	return xgo_runtime.MarshalNoError(data)
+}
+
+// limitDepth replaces calls deeper than max with an entry
+// telling how many they are. The given entries are not modified.
+func limitDepth(entries []*stack_model.StackEntry, max int) []*stack_model.StackEntry {
+	if max <= 0 {
+		n := countCalls(entries)
+		if n == 0 {
+			return entries
+		}
+		return []*stack_model.StackEntry{{
+			FuncInfo: &stack_model.FuncInfo{
+				Kind: stack_model.FuncKind_Func,
+				Name: fmt.Sprintf("... (%d calls nested too deep)", n),
+			},
+			BeginNs: entries[0].BeginNs,
+			EndNs:   entries[len(entries)-1].EndNs,
+		}}
+	}
+	list := entries
+	for i, entry := range entries {
+		if entry == nil || len(entry.Children) == 0 {
+			continue
+		}
+		children := limitDepth(entry.Children, max-1)
+		if &children[0] == &entry.Children[0] {
+			continue
+		}
+		if &list[0] == &entries[0] {
+			list = append([]*stack_model.StackEntry(nil), entries...)
+		}
+		limited := *entry
+		limited.Children = children
+		list[i] = &limited
+	}
+	return list
+}
+
+func countCalls(entries []*stack_model.StackEntry) int {
+	n := 0
+	for _, entry := range entries {
+		if entry != nil {
+			n += 1 + countCalls(entry.Children)
+		}
+	}
+	return n
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
@@ -529,7 +646,7 @@ func (c *StackDataExportImpl) JSON() ([]byte, error) {
 	if atomic.LoadInt32(&c.jsonCached) == 1 {
 		return c.json, nil
 	}
-	c.json = xgo_runtime.MarshalNoError(c.data)
+	c.json = marshalStack(c.data)
 	atomic.StoreInt32(&c.jsonCached, 1)
 	return c.json, nil
 }
diff --git a/runtime/internal/trap/trap.go b/runtime/internal/trap/trap.go
index e633ab9..1cae5e4 100644
--- a/runtime/internal/trap/trap.go
+++ b/runtime/internal/trap/trap.go
@@ -409,7 +409,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					break
 				}
 			}
-			errStr = fmt.Sprint(pe)
+			errStr = sprintPanic(pe)
 		}
 
 		resultNamesNoErr, resultsNoErr, resErr := trySplitLastError(resultNames, results)
@@ -442,7 +442,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 				outputFile := filepath.Join(flags.COLLECT_TEST_TRACE_DIR, testName+".json")
 				os.MkdirAll(filepath.Dir(outputFile), 0755)
 
-				exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
+				exportedStackJSON := marshalStack(exportedStack)
 				err := os.WriteFile(outputFile, exportedStackJSON, 0644)
 				if err != nil {
 					fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
@@ -454,7 +454,7 @@ func trap(infoPtr unsafe.Pointer, recvPtr interface{}, args []interface{}, resul
 					})
 				}
 				if stackData.stackOutputFile != "" {
-					exportedStackJSON := xgo_runtime.MarshalNoError(exportedStack)
+					exportedStackJSON := marshalStack(exportedStack)
 					err := os.WriteFile(stackData.stackOutputFile, exportedStackJSON, 0644)
 					if err != nil {
 						fmt.Fprintf(os.Stderr, "error writing stack: %v\n", err)
@@ -514,6 +514,123 @@ func isUnwinding() bool {
 	}
 }
 
+// sprintPanic formats the value of a panic. Values that contain themselves
+// would overflow the stack, so only their type is shown.
+func sprintPanic(pe interface{}) string {
+	v := reflect.ValueOf(pe)
+	if v.Kind() == reflect.Ptr {
+		v = v.Elem()
+	}
+	if containsItself(v, nil) {
+		return fmt.Sprintf("(%T)", pe)
+	}
+	return fmt.Sprint(pe)
+}
+
+// containsItself tells whether v contains itself by
+// the links fmt follows: maps, slices and interfaces
+func containsItself(v reflect.Value, parents []uintptr) bool {
+	switch v.Kind() {
+	case reflect.Map, reflect.Slice:
+		if v.Len() == 0 {
+			return false
+		}
+		ptr := v.Pointer()
+		for _, parent := range parents {
+			if parent == ptr {
+				return true
+			}
+		}
+		parents = append(parents, ptr)
+	}
+	switch v.Kind() {
+	case reflect.Interface:
+		return containsItself(v.Elem(), parents)
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			if containsItself(v.Field(i), parents) {
+				return true
+			}
+		}
+	case reflect.Map:
+		for _, key := range v.MapKeys() {
+			if containsItself(key, parents) || containsItself(v.MapIndex(key), parents) {
+				return true
+			}
+		}
+	case reflect.Slice, reflect.Array:
+		switch v.Type().Elem().Kind() {
+		case reflect.Interface, reflect.Struct, reflect.Map, reflect.Slice, reflect.Array:
+			for i := 0; i < v.Len(); i++ {
+				if containsItself(v.Index(i), parents) {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
+// calls nested deeper than this are cut from the json, because
+// encoding/json rejects a trace nested deeper than 10000 as a
+// whole (each call takes 2 levels)
+const maxCallDepth = 4000
+
+func marshalStack(data *stack_model.Stack) []byte {
+	if data != nil {
+		limited := *data
+		limited.Children = limitDepth(data.Children, maxCallDepth)
+		data = &limited
+	}
+	return xgo_runtime.MarshalNoError(data)
+}
+
+// limitDepth replaces calls deeper than max with an entry
+// telling how many they are. The given entries are not modified.
+func limitDepth(entries []*stack_model.StackEntry, max int) []*stack_model.StackEntry {
+	if max <= 0 {
+		n := countCalls(entries)
+		if n == 0 {
+			return entries
+		}
+		return []*stack_model.StackEntry{{
+			FuncInfo: &stack_model.FuncInfo{
+				Kind: stack_model.FuncKind_Func,
+				Name: fmt.Sprintf("... (%d calls nested too deep)", n),
+			},
+			BeginNs: entries[0].BeginNs,
+			EndNs:   entries[len(entries)-1].EndNs,
+		}}
+	}
+	list := entries
+	for i, entry := range entries {
+		if entry == nil || len(entry.Children) == 0 {
+			continue
+		}
+		children := limitDepth(entry.Children, max-1)
+		if &children[0] == &entry.Children[0] {
+			continue
+		}
+		if &list[0] == &entries[0] {
+			list = append([]*stack_model.StackEntry(nil), entries...)
+		}
+		limited := *entry
+		limited.Children = children
+		list[i] = &limited
+	}
+	return list
+}
+
+func countCalls(entries []*stack_model.StackEntry) int {
+	n := 0
+	for _, entry := range entries {
+		if entry != nil {
+			n += 1 + countCalls(entry.Children)
+		}
+	}
+	return n
+}
+
 type StackDataExportImpl struct {
 	data *stack_model.Stack
 
@@ -529,7 +646,7 @@ func (c *StackDataExportImpl) JSON() ([]byte, error) {
 	if atomic.LoadInt32(&c.jsonCached) == 1 {
 		return c.json, nil
 	}
-	c.json = xgo_runtime.MarshalNoError(c.data)
+	c.json = marshalStack(c.data)
 	atomic.StoreInt32(&c.jsonCached, 1)
 	return c.json, nil
 }
-- 
2.43.0

