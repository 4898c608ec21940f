From 957e02b0236347a1f433368e80bc7cc62d4638d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 01/29] fix: hand variadic slices over unchanged instead of
 copying them

A call passed through a mock (unmatched, filtered out or via Origin) got a
copy of the variadic slice: a nil slice became non-nil and writes made by the
callee were lost to the caller.
---
 internal/tool/call.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index 40dd333..b3a1085 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -22,16 +22,8 @@ import (
 
 func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 	if f.Type().IsVariadic() {
-		newArgs := make([]reflect.Value, 0)
-		lastArg := args[len(args)-1]
-		for i := 0; i < len(args)-1; i++ {
-			newArgs = append(newArgs, args[i])
-		}
-
-		for i := 0; i < lastArg.Len(); i++ {
-			newArgs = append(newArgs, lastArg.Index(i))
-		}
-		return f.Call(newArgs)
+		// the last argument is already the variadic slice, hand over that very slice
+		return f.CallSlice(args)
 	} else {
 		return f.Call(args)
 	}
-- 
2.43.0


From 566a7c6729f62471337b965af1618b0d7b1054e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 02/29] fix: calling origin must not overwrite the arguments of
 the mocked call

append wrote origin's arguments into the array of the intercepted call, so a
When that calls origin changed what later conditions and hooks received.
---
 mock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 676f006..4d897eb 100644
--- a/mock.go
+++ b/mock.go
@@ -313,7 +313,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From 120c2c712e571709ac0a74f6e4b8631a37b45b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 03/29] fix: a rejected re-mock must not take effect

---
 convey.go   | 9 +++++++--
 mock.go     | 1 +
 mock_var.go | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/convey.go b/convey.go
index 7e7bd3e..e9dbc64 100644
--- a/convey.go
+++ b/convey.go
@@ -48,12 +48,17 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-func addToGlobal(mocker mockerInstance) {
-	tool.DebugPrintf("%v added\n", mocker.key())
+// checkReMock makes sure that the target is not mocked in the current scope yet. It should be called before the target
+// is changed.
+func checkReMock(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
 	if ok {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
+}
+
+func addToGlobal(mocker mockerInstance) {
+	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
 }
 
diff --git a/mock.go b/mock.go
index 4d897eb..8705679 100644
--- a/mock.go
+++ b/mock.go
@@ -327,6 +327,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	if mocker.isPatched {
 		return mocker
 	}
+	checkReMock(mocker)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
diff --git a/mock_var.go b/mock_var.go
index 910816c..3d89fcb 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -73,6 +73,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 	defer mocker.lock.Unlock()
 
 	if !mocker.isPatched {
+		checkReMock(mocker)
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From a6e19ad5a7d523599b9dcb40ed71f9d110c6c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 04/29] fix: releasing a mock removes it from the scope it
 belongs to

---
 convey.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index e9dbc64..15a304a 100644
--- a/convey.go
+++ b/convey.go
@@ -64,7 +64,13 @@ func addToGlobal(mocker mockerInstance) {
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
-	delete(gMocker[len(gMocker)-1], mocker.key())
+	// the mocker may belong to an outer scope, and a key may be used by different mockers in different scopes
+	for i := len(gMocker) - 1; i >= 0; i-- {
+		if gMocker[i][mocker.key()] == mocker {
+			delete(gMocker[i], mocker.key())
+			return
+		}
+	}
 }
 
 // Unpatch all mocks in current 'PatchConvey' context
-- 
2.43.0


From f544f54520cff152ab55532af60afe0462823ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 05/29] fix: release the mocks of a scope in reverse order

---
 convey.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/convey.go b/convey.go
index 15a304a..5deed3b 100644
--- a/convey.go
+++ b/convey.go
@@ -25,6 +25,9 @@ import (
 
 var gMocker = make([]map[uintptr]mockerInstance, 0)
 
+// gActive holds all active mockers of all scopes, the latest at last
+var gActive = make([]mockerInstance, 0)
+
 func init() {
 	gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 }
@@ -35,9 +38,7 @@ func PatchConvey(items ...interface{}) {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
 				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 				defer func() {
-					for _, mocker := range gMocker[len(gMocker)-1] {
-						mocker.unPatch()
-					}
+					unPatchScope(gMocker[len(gMocker)-1])
 					gMocker = gMocker[:len(gMocker)-1]
 				}()
 				return tool.ReflectCall(reflect.ValueOf(item), args)
@@ -60,6 +61,7 @@ func checkReMock(mocker mockerInstance) {
 func addToGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
+	gActive = append(gActive, mocker)
 }
 
 func removeFromGlobal(mocker mockerInstance) {
@@ -68,11 +70,27 @@ func removeFromGlobal(mocker mockerInstance) {
 	for i := len(gMocker) - 1; i >= 0; i-- {
 		if gMocker[i][mocker.key()] == mocker {
 			delete(gMocker[i], mocker.key())
+			break
+		}
+	}
+	for i := len(gActive) - 1; i >= 0; i-- {
+		if gActive[i] == mocker {
+			gActive = append(gActive[:i:i], gActive[i+1:]...)
 			return
 		}
 	}
 }
 
+// unPatchScope releases all mocks of the scope, the latest first, because different mocks may change the same code or
+// memory: generic functions sharing their implementation, or a struct variable and one of its fields
+func unPatchScope(scope map[uintptr]mockerInstance) {
+	for i := len(gActive) - 1; i >= 0; i-- {
+		if mocker := gActive[i]; scope[mocker.key()] == mocker {
+			mocker.unPatch()
+		}
+	}
+}
+
 // Unpatch all mocks in current 'PatchConvey' context
 //
 // If the caller is out of 'PatchConvey', it will unpatch all mocks
@@ -98,7 +116,5 @@ func removeFromGlobal(mocker mockerInstance) {
 //		}
 //	})
 func UnPatchAll() {
-	for _, mocker := range gMocker[len(gMocker)-1] {
-		mocker.unPatch()
-	}
+	unPatchScope(gMocker[len(gMocker)-1])
 }
-- 
2.43.0


From 10c25b00249921b3de77b7d0437b103dc6896e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 06/29] fix: a rejected reconfiguration leaves the mock as it
 is

---
 mock.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 8705679..9b76de1 100644
--- a/mock.go
+++ b/mock.go
@@ -122,6 +122,9 @@ func (builder *MockBuilder) Origin(funcPtr interface{}) *MockBuilder {
 
 func (builder *MockBuilder) origin(funcPtr interface{}) *MockBuilder {
 	tool.AssertPtr(funcPtr)
+	pElem := reflect.ValueOf(funcPtr).Elem()
+	tool.Assert(pElem.Kind() == reflect.Func, "origin receiver must be a function pointer")
+	(&Mocker{}).missReceiver(reflect.TypeOf(builder.target), pElem.Interface())
 	builder.proxyCaller = funcPtr
 	return builder
 }
@@ -406,8 +409,8 @@ func (mocker *Mocker) Origin(funcPtr interface{}) *Mocker {
 }
 
 func (mocker *Mocker) rePatch(do func()) *Mocker {
+	do() // may panic if the new configuration is not valid, the mock should stay as it is then
 	mocker.UnPatch()
-	do()
 	mocker.buildHook()
 	mocker.Patch()
 	return mocker
-- 
2.43.0


From e8a4e3bf8ef2cfc8aa5248925a623d8476f0233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 07/29] fix: MockValue takes new values while active and
 restores the value found

---
 mock_var.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mock_var.go b/mock_var.go
index 3d89fcb..a01e3c6 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -54,16 +54,19 @@ func MockValue(targetPtr interface{}) *MockerVar {
 
 func (mocker *MockerVar) To(value interface{}) *MockerVar {
 	var v reflect.Type
+	var hook reflect.Value
 
 	if value == nil {
-		mocker.hook = reflect.Zero(mocker.targetType)
+		hook = reflect.Zero(mocker.targetType)
 		v = mocker.targetType
 	} else {
-		mocker.hook = reflect.ValueOf(value)
+		hook = reflect.ValueOf(value)
 		v = reflect.TypeOf(value)
 	}
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	mocker.UnPatch() // an active mock takes the new value
+	mocker.hook = hook
 	mocker.Patch()
 	return mocker
 }
@@ -74,6 +77,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 
 	if !mocker.isPatched {
 		checkReMock(mocker)
+		mocker.origin = mocker.target.Interface()
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From 524e4bc870f2bb2859cdc0615ef0b1ec45331c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 08/29] fix: the copied stack check of the target crashed on
 preemption and re-entered the mock

---
 internal/monkey/inst/disasm_amd64.go | 32 +++++++++++++++++++++++++
 internal/monkey/inst/disasm_arm64.go |  5 ++++
 internal/monkey/patch.go             | 22 +++++++++++------
 internal/tool/stack.go               | 35 ++++++++++++++++++++++++++++
 mock.go                              |  2 ++
 5 files changed, 89 insertions(+), 7 deletions(-)
 create mode 100644 internal/tool/stack.go

diff --git a/internal/monkey/inst/disasm_amd64.go b/internal/monkey/inst/disasm_amd64.go
index 29201ec..a934f1c 100644
--- a/internal/monkey/inst/disasm_amd64.go
+++ b/internal/monkey/inst/disasm_amd64.go
@@ -68,6 +68,38 @@ func Disassemble(code []byte, required int, checkLen bool) int {
 	return pos
 }
 
+// StackCheck returns the length of the stack check at the beginning of a function, 0 if there is none. Functions with a
+// frame of more than 4K use another check, which is not considered here.
+//
+//	LEA R12, [RSP-size] // not for small frames
+//	CMP RSP, [R14+0x10] // or CMP R12, [R14+0x10]
+//	JBE morestack
+func StackCheck(code []byte) int {
+	var pos int
+	reg := x86asm.RSP
+	for pos < len(code) {
+		inst, err := x86asm.Decode(code[pos:], 64)
+		if err != nil {
+			return 0
+		}
+		mem, _ := inst.Args[1].(x86asm.Mem)
+		switch {
+		case inst.Op == x86asm.LEA && pos == 0 && inst.Args[0] == x86asm.R12 && mem.Base == x86asm.RSP:
+			reg = x86asm.R12
+		case inst.Op == x86asm.CMP && inst.Args[0] == reg && mem.Base == x86asm.R14 && mem.Disp == 0x10:
+			next, err := x86asm.Decode(code[pos+inst.Len:], 64)
+			if err != nil || next.Op != x86asm.JBE {
+				return 0
+			}
+			return pos + inst.Len + next.Len
+		default:
+			return 0
+		}
+		pos += inst.Len
+	}
+	return 0
+}
+
 func GetGenericJumpAddr(addr uintptr, maxScan uint64) uintptr {
 	code := common.BytesOf(addr, int(maxScan))
 	var pos uint64
diff --git a/internal/monkey/inst/disasm_arm64.go b/internal/monkey/inst/disasm_arm64.go
index 3c66efc..f5eb75f 100644
--- a/internal/monkey/inst/disasm_arm64.go
+++ b/internal/monkey/inst/disasm_arm64.go
@@ -57,6 +57,11 @@ func Disassemble(code []byte, required int, checkLen bool) int {
 	return required
 }
 
+// StackCheck is not supported yet
+func StackCheck(code []byte) int {
+	return 0
+}
+
 func GetGenericJumpAddr(addr uintptr, maxScan uint64) uintptr {
 	code := common.BytesOf(addr, int(maxScan))
 	var pos uint64
diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 8f4ee24..2ae0a01 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -28,14 +28,14 @@ import (
 
 // Patch is a context that holds the address and original codes of the patched function.
 type Patch struct {
-	size int
-	code []byte
-	base uintptr
+	origin []byte
+	code   []byte
+	base   uintptr
 }
 
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
-	mem.WriteWithSTW(p.base, p.code[:p.size])
+	mem.WriteWithSTW(p.base, p.origin)
 	common.ReleasePage(p.code)
 }
 
@@ -60,19 +60,27 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 
 	// construct the proxy code
 	proxyCode := common.AllocatePage()
+	// leave out the stack check: its branch is relative, and it starts the (patched) target over again. The caller of the
+	// proxy makes sure that there is enough stack, see tool.GrowStack
+	proxyBegin := inst.StackCheck(targetCodeBuf)
+	proxyEnd := cuttingIdx
+	if proxyEnd < proxyBegin {
+		proxyEnd = proxyBegin
+	}
 	// save the original code before the cutting point
-	copy(proxyCode, targetCodeBuf[:cuttingIdx])
+	n := copy(proxyCode, targetCodeBuf[proxyBegin:proxyEnd])
 	// construct the branch instruction, i.e. jump to the cutting point
-	copy(proxyCode[cuttingIdx:], inst.BranchTo(targetAddr+uintptr(cuttingIdx)))
+	copy(proxyCode[n:], inst.BranchTo(targetAddr+uintptr(proxyEnd)))
 	// inject the proxy code to the proxy function
 	fn.InjectInto(proxy, proxyCode)
 
 	tool.DebugPrintf("PatchValue: hook code len(%v), cuttingIdx(%v)\n", len(hookCode), cuttingIdx)
 
+	origin := append([]byte{}, targetCodeBuf[:cuttingIdx]...)
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx}
+	return &Patch{base: targetAddr, code: proxyCode, origin: origin}
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
diff --git a/internal/tool/stack.go b/internal/tool/stack.go
new file mode 100644
index 0000000..88a8b60
--- /dev/null
+++ b/internal/tool/stack.go
@@ -0,0 +1,35 @@
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package tool
+
+// maxUncheckedFrame is the biggest frame of a function called without stack check
+const maxUncheckedFrame = 4096
+
+// GrowStack makes sure that the current goroutine is able to call a function without stack check. It provides much more
+// than that, because the stack may shrink in between.
+func GrowStack() {
+	growStack(4)
+}
+
+//go:noinline
+func growStack(n int) byte {
+	var frame [maxUncheckedFrame]byte
+	if n > 0 {
+		frame[n] = growStack(n - 1)
+	}
+	return frame[n]
+}
diff --git a/mock.go b/mock.go
index 9b76de1..4a6c7fc 100644
--- a/mock.go
+++ b/mock.go
@@ -240,6 +240,7 @@ func (mocker *Mocker) buildHook() {
 	proxySetter := mocker.buildProxy()
 
 	originExec := func(args []reflect.Value) []reflect.Value {
+		tool.GrowStack()
 		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), args)
 	}
 
@@ -316,6 +317,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
+				tool.GrowStack()
 				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
-- 
2.43.0


From a5b3b7c7ff41c127736759d206a161167c87209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 09/29] fix: origin may be called after the mock is released

---
 internal/monkey/fn/inject.go | 7 +++++++
 internal/monkey/patch.go     | 5 ++++-
 mock.go                      | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/monkey/fn/inject.go b/internal/monkey/fn/inject.go
index 46a78ab..104e422 100644
--- a/internal/monkey/fn/inject.go
+++ b/internal/monkey/fn/inject.go
@@ -18,6 +18,7 @@ package fn
 
 import (
 	"reflect"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
@@ -46,3 +47,9 @@ func InjectInto(target reflect.Value, fnCode []byte) {
 	// set the target with the new made function
 	target.Elem().Set(carrier)
 }
+
+// Redirect makes a function made by InjectInto run the codes at the address, the injected codes are not used any more.
+func Redirect(function reflect.Value, addr uintptr) {
+	// the code pointer is the first word of a function value
+	atomic.StoreUintptr((*uintptr)(unsafe.Pointer(common.PtrAt(function))), addr)
+}
diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 2ae0a01..27947a0 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -31,11 +31,14 @@ type Patch struct {
 	origin []byte
 	code   []byte
 	base   uintptr
+	proxy  reflect.Value
 }
 
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
 	mem.WriteWithSTW(p.base, p.origin)
+	// the proxy function may still be called, which is the same as calling the target now
+	fn.Redirect(p.proxy, p.base)
 	common.ReleasePage(p.code)
 }
 
@@ -80,7 +83,7 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	return &Patch{base: targetAddr, code: proxyCode, origin: origin}
+	return &Patch{base: targetAddr, code: proxyCode, origin: origin, proxy: reflect.ValueOf(proxy.Elem().Interface())}
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
diff --git a/mock.go b/mock.go
index 4a6c7fc..c5348fd 100644
--- a/mock.go
+++ b/mock.go
@@ -318,7 +318,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
 				tool.GrowStack()
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
+				return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From 778956f29387c6e7c41986a2fcc384b797a6f7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 10/29] fix: stacked mocks of a function may be released in any
 order

---
 internal/monkey/patch.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 27947a0..2033634 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -18,6 +18,7 @@ package monkey
 
 import (
 	"reflect"
+	"sync"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
 	"github.com/bytedance/mockey/internal/monkey/fn"
@@ -32,22 +33,52 @@ type Patch struct {
 	code   []byte
 	base   uintptr
 	proxy  reflect.Value
+	below  *Patch // previous patch of the same base which is still active
 }
 
+var (
+	patches     = make(map[uintptr]*Patch) // latest active patch of each base
+	patchesLock sync.Mutex
+)
+
 // Unpatch restores the patched function to the original function.
 func (p *Patch) Unpatch() {
-	mem.WriteWithSTW(p.base, p.origin)
+	patchesLock.Lock()
+	defer patchesLock.Unlock()
+
+	if above := p.above(); above != nil {
+		// the base belongs to a later patch, which takes over what this one saved
+		mem.WriteWithSTW(common.PtrOf(above.code), p.code)
+		above.origin = p.origin
+		above.below = p.below
+	} else {
+		mem.WriteWithSTW(p.base, p.origin)
+		patches[p.base] = p.below
+	}
 	// the proxy function may still be called, which is the same as calling the target now
 	fn.Redirect(p.proxy, p.base)
 	common.ReleasePage(p.code)
 }
 
+// above returns the next active patch of the same base
+func (p *Patch) above() *Patch {
+	for q := patches[p.base]; q != nil; q = q.below {
+		if q.below == p {
+			return q
+		}
+	}
+	return nil
+}
+
 // PatchValue replace the target function with a hook function, and stores the target function in the proxy function
 // for future restore. Target and hook are values of function. Proxy is a value of proxy function pointer.
 func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch {
 	tool.Assert(hook.Kind() == reflect.Func, "'%s' is not a function", hook.Kind())
 	tool.Assert(proxy.Kind() == reflect.Ptr, "'%v' is not a function pointer", proxy.Kind())
 
+	patchesLock.Lock()
+	defer patchesLock.Unlock()
+
 	targetAddr := target.Pointer()
 	if generic {
 		// we assume that generic call/bl op is located in first 200 bytes of codes from targetAddr
@@ -83,7 +114,9 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	return &Patch{base: targetAddr, code: proxyCode, origin: origin, proxy: reflect.ValueOf(proxy.Elem().Interface())}
+	patch := &Patch{base: targetAddr, code: proxyCode, origin: origin, proxy: reflect.ValueOf(proxy.Elem().Interface()), below: patches[targetAddr]}
+	patches[targetAddr] = patch
+	return patch
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
-- 
2.43.0


From 256d09aabc22a1810672d4b1ce5e44a597953a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 11/29] fix: stacked mocks of a variable may be released in any
 order

---
 mock_var.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mock_var.go b/mock_var.go
index a01e3c6..0ff0596 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -93,7 +93,10 @@ func (mocker *MockerVar) UnPatch() *MockerVar {
 	defer mocker.lock.Unlock()
 	if mocker.isPatched {
 		mocker.isPatched = false
-		if mocker.origin == nil {
+		if above := mocker.above(); above != nil {
+			// the variable belongs to a later mocker, which takes over what this one saved
+			above.origin = mocker.origin
+		} else if mocker.origin == nil {
 			mocker.target.Set(reflect.Zero(mocker.targetType))
 		} else {
 			mocker.target.Set(reflect.ValueOf(mocker.origin))
@@ -104,6 +107,16 @@ func (mocker *MockerVar) UnPatch() *MockerVar {
 	return mocker
 }
 
+// above returns the next active mocker of the same variable
+func (mocker *MockerVar) above() (above *MockerVar) {
+	for i := len(gActive) - 1; i >= 0 && gActive[i] != mocker; i-- {
+		if m, ok := gActive[i].(*MockerVar); ok && m.key() == mocker.key() && m.targetType == mocker.targetType {
+			above = m
+		}
+	}
+	return above
+}
+
 func (mocker *MockerVar) key() uintptr {
 	return mocker.target.Addr().Pointer()
 }
-- 
2.43.0


From e56e9f84661c0b87326d303d0753d9a976cb50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 12/29] fix: a reconfiguration rejected as re-mock leaves the
 mock as it is

---
 convey.go   | 6 +++---
 mock.go     | 4 +++-
 mock_var.go | 1 +
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/convey.go b/convey.go
index 5deed3b..1e808ea 100644
--- a/convey.go
+++ b/convey.go
@@ -49,12 +49,12 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-// checkReMock makes sure that the target is not mocked in the current scope yet. It should be called before the target
+// checkReMock makes sure that the target is not mocked by another mocker in the current scope yet. It should be called before the target
 // is changed.
 func checkReMock(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
-	if ok {
-		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
+	if ok && last != mocker {
+		tool.Assert(false, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
 }
 
diff --git a/mock.go b/mock.go
index c5348fd..9fdb598 100644
--- a/mock.go
+++ b/mock.go
@@ -411,7 +411,9 @@ func (mocker *Mocker) Origin(funcPtr interface{}) *Mocker {
 }
 
 func (mocker *Mocker) rePatch(do func()) *Mocker {
-	do() // may panic if the new configuration is not valid, the mock should stay as it is then
+	// these may panic, the mock should stay as it is then
+	checkReMock(mocker)
+	do()
 	mocker.UnPatch()
 	mocker.buildHook()
 	mocker.Patch()
diff --git a/mock_var.go b/mock_var.go
index 0ff0596..66209e5 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -65,6 +65,7 @@ func (mocker *MockerVar) To(value interface{}) *MockerVar {
 	}
 
 	tool.Assert(v.AssignableTo(mocker.targetType), "value type:%s not match target type:%s", v.Name(), mocker.targetType.Name())
+	checkReMock(mocker)
 	mocker.UnPatch() // an active mock takes the new value
 	mocker.hook = hook
 	mocker.Patch()
-- 
2.43.0


From 29c7e0fbcf34e8b899ebed5d852f772c2622fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 13/29] fix: hooks and origins with wrong results are rejected
 when they are set

---
 internal/tool/check.go | 13 +++++++++++++
 mock.go                |  4 +++-
 mock_condition.go      |  2 ++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/tool/check.go b/internal/tool/check.go
index 42e5871..38098e2 100644
--- a/internal/tool/check.go
+++ b/internal/tool/check.go
@@ -43,3 +43,16 @@ func CheckFuncArgs(a, b reflect.Type, shiftA, shiftB int) bool {
 	}
 	return false
 }
+
+// CheckFuncResults checks whether the results of function from can be used as the results of function to
+func CheckFuncResults(from, to reflect.Type) bool {
+	if from.NumOut() != to.NumOut() {
+		return false
+	}
+	for i := 0; i < from.NumOut(); i++ {
+		if !from.Out(i).AssignableTo(to.Out(i)) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/mock.go b/mock.go
index 9fdb598..d4901f4 100644
--- a/mock.go
+++ b/mock.go
@@ -124,7 +124,9 @@ func (builder *MockBuilder) origin(funcPtr interface{}) *MockBuilder {
 	tool.AssertPtr(funcPtr)
 	pElem := reflect.ValueOf(funcPtr).Elem()
 	tool.Assert(pElem.Kind() == reflect.Func, "origin receiver must be a function pointer")
-	(&Mocker{}).missReceiver(reflect.TypeOf(builder.target), pElem.Interface())
+	targetType := reflect.TypeOf(builder.target)
+	(&Mocker{}).missReceiver(targetType, pElem.Interface())
+	tool.Assert(tool.CheckFuncResults(targetType, pElem.Type()), "target:%v, origin:%v results not match", targetType, pElem.Type())
 	builder.proxyCaller = funcPtr
 	return builder
 }
diff --git a/mock_condition.go b/mock_condition.go
index 4105790..452a47a 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -51,6 +51,7 @@ func (m *mockCondition) SetWhenForce(when interface{}) {
 	}
 
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(wVal.Type())
+	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
 	whenType := reflect.FuncOf(inTypes, []reflect.Type{out1}, hookType.IsVariadic())
 	m.when = reflect.MakeFunc(whenType, func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(wVal, m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
@@ -98,6 +99,7 @@ func (m *mockCondition) SetToForce(to interface{}) {
 	tool.Assert(hType.Kind() == reflect.Func, "to a is not a func")
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(hType)
 	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
+	tool.Assert(tool.CheckFuncResults(hType, reflect.TypeOf(m.builder.target)), "target:%v, hook:%v results not match", reflect.TypeOf(m.builder.target), hType)
 	m.hook = reflect.MakeFunc(m.builder.hookType(), func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(reflect.ValueOf(to), m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
 		return
-- 
2.43.0


From 01f353e84ad3170488f8b2f19d09a018409f5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 14/29] fix: generic methods take the receiver before the
 generic information

---
 internal/monkey/inst/generic_method.go        | 33 +++++++++++++++++++
 .../monkey/inst/generic_method_below_1_20.go  | 26 +++++++++++++++
 mock.go                                       | 27 ++++++++++-----
 mock_condition.go                             |  5 +--
 4 files changed, 81 insertions(+), 10 deletions(-)
 create mode 100644 internal/monkey/inst/generic_method.go
 create mode 100644 internal/monkey/inst/generic_method_below_1_20.go

diff --git a/internal/monkey/inst/generic_method.go b/internal/monkey/inst/generic_method.go
new file mode 100644
index 0000000..77e4dab
--- /dev/null
+++ b/internal/monkey/inst/generic_method.go
@@ -0,0 +1,33 @@
+//go:build go1.20
+// +build go1.20
+
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package inst
+
+import (
+	"runtime"
+	"strings"
+)
+
+// IsGenericMethod checks whether the generic function at the address is a method whose implementation takes the receiver
+// before the generic information, as methods do since go1.20
+func IsGenericMethod(addr uintptr) bool {
+	// for example: "pkg.(*Type[...]).Method" or "pkg.Type[...].Method" for methods, "pkg.Func[...]" for functions
+	name := runtime.FuncForPC(GetGenericJumpAddr(addr, 10000)).Name()
+	return strings.Contains(name[strings.LastIndex(name, "]")+1:], ".")
+}
diff --git a/internal/monkey/inst/generic_method_below_1_20.go b/internal/monkey/inst/generic_method_below_1_20.go
new file mode 100644
index 0000000..85cdb7f
--- /dev/null
+++ b/internal/monkey/inst/generic_method_below_1_20.go
@@ -0,0 +1,26 @@
+//go:build !go1.20
+// +build !go1.20
+
+/*
+ * Copyright 2022 ByteDance Inc.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package inst
+
+// IsGenericMethod checks whether the generic function at the address is a method whose implementation takes the receiver
+// before the generic information, as methods do since go1.20
+func IsGenericMethod(addr uintptr) bool {
+	return false
+}
diff --git a/mock.go b/mock.go
index d4901f4..b3ae936 100644
--- a/mock.go
+++ b/mock.go
@@ -22,6 +22,7 @@ import (
 	"sync/atomic"
 
 	"github.com/bytedance/mockey/internal/monkey"
+	"github.com/bytedance/mockey/internal/monkey/inst"
 	"github.com/bytedance/mockey/internal/tool"
 )
 
@@ -55,6 +56,7 @@ type MockBuilder struct {
 	gId             int64
 	unsafe          bool
 	generic         bool
+	genericArg      int // position of the generic information among the arguments of the generic target's implementation
 }
 
 // Mock mocks target function
@@ -73,6 +75,9 @@ func Mock(target interface{}, opt ...optionFn) *MockBuilder {
 		unsafe:  option.unsafe,
 		generic: option.generic,
 	}
+	if builder.generic && inst.IsGenericMethod(reflect.ValueOf(target).Pointer()) {
+		builder.genericArg = 1 // the receiver is the first one
+	}
 	builder.resetCondition()
 	return builder
 }
@@ -86,10 +91,12 @@ func MockUnsafe(target interface{}) *MockBuilder {
 func (builder *MockBuilder) hookType() reflect.Type {
 	targetType := reflect.TypeOf(builder.target)
 	if builder.generic {
-		targetIn := []reflect.Type{genericInfoType}
+		targetIn := []reflect.Type{}
 		for i := 0; i < targetType.NumIn(); i++ {
 			targetIn = append(targetIn, targetType.In(i))
 		}
+		pos := builder.genericArg
+		targetIn = append(targetIn[:pos:pos], append([]reflect.Type{genericInfoType}, targetIn[pos:]...)...)
 		targetOut := []reflect.Type{}
 		for i := 0; i < targetType.NumOut(); i++ {
 			targetOut = append(targetOut, targetType.Out(i))
@@ -310,17 +317,21 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		tool.Assert(pVal.Kind() == reflect.Ptr && pVal.Elem().Kind() == reflect.Func, "origin receiver must be a function pointer")
 		pElem := pVal.Elem()
 
-		shift := 0
-		if mocker.builder.generic {
-			shift += 1
-		}
-		if mocker.missReceiver(mocker.target.Type(), pElem.Interface()) {
-			shift += 1
+		generic, genericArg, receiverArg := mocker.builder.generic, mocker.builder.genericArg, 0
+		if generic && genericArg == 0 {
+			receiverArg = 1
 		}
+		missReceiver := mocker.missReceiver(mocker.target.Type(), pElem.Interface())
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
 				tool.GrowStack()
-				return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), append(args[0:shift:shift], innerArgs...))
+				if missReceiver {
+					innerArgs = append([]reflect.Value{args[receiverArg]}, innerArgs...)
+				}
+				if generic {
+					innerArgs = append(innerArgs[:genericArg:genericArg], append([]reflect.Value{args[genericArg]}, innerArgs[genericArg:]...)...)
+				}
+				return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), innerArgs)
 			}))
 		}
 	}
diff --git a/mock_condition.go b/mock_condition.go
index 452a47a..8e7b717 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -144,10 +144,11 @@ func (m *mockCondition) checkGenericAndReceiver(typ reflect.Type) (bool, bool) {
 func (m *mockCondition) adaptArgsForReflectCall(args []reflect.Value, hasGeneric, hasReceiver bool) []reflect.Value {
 	adaption := []reflect.Value{}
 	if m.builder.generic {
+		pos := m.builder.genericArg
 		if hasGeneric {
-			adaption = append(adaption, args[0])
+			adaption = append(adaption, args[pos])
 		}
-		args = args[1:]
+		args = append(args[:pos:pos], args[pos+1:]...)
 	}
 	if !hasReceiver {
 		args = args[1:]
-- 
2.43.0


From 0223a302542ed991b99d2f2142d984416d6ffa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 15/29] fix: continuing in the target after its relocated head
 keeps all registers

---
 internal/monkey/inst/inst_amd64.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/monkey/inst/inst_amd64.go b/internal/monkey/inst/inst_amd64.go
index 8be7baa..b8f0bab 100644
--- a/internal/monkey/inst/inst_amd64.go
+++ b/internal/monkey/inst/inst_amd64.go
@@ -18,10 +18,12 @@ package inst
 
 import "unsafe"
 
+// BranchTo continues at the address, all registers are left as they are.
 func BranchTo(to uintptr) (res []byte) {
-	res = append(res, rdxMOV(to)...)         // MOVABS RDX, to
-	res = append(res, []byte{0xff, 0xe2}...) // JMP RDX
-	return
+	res = append(res, []byte{0xff, 0x25, 0, 0, 0, 0}...) // JMP [RIP], the address follows
+	val := make([]byte, unsafe.Sizeof(to))
+	*(*uintptr)(unsafe.Pointer(&val[0])) = to
+	return append(res, val...)
 }
 
 func BranchInto(to uintptr) (res []byte) {
-- 
2.43.0


From a8f68c247c73e674a307f75a80bc443e0f899845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 16/29] fix: released mocks are not kept alive

---
 convey.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 1e808ea..c02eb04 100644
--- a/convey.go
+++ b/convey.go
@@ -75,7 +75,9 @@ func removeFromGlobal(mocker mockerInstance) {
 	}
 	for i := len(gActive) - 1; i >= 0; i-- {
 		if gActive[i] == mocker {
-			gActive = append(gActive[:i:i], gActive[i+1:]...)
+			copy(gActive[i:], gActive[i+1:])
+			gActive[len(gActive)-1] = nil // do not keep the mocker alive
+			gActive = gActive[:len(gActive)-1]
 			return
 		}
 	}
-- 
2.43.0


From dd10094fb071a80b91d8055ae5cefa8d67001aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 17/29] fix: unexported methods of slice, array, channel and
 basic types are found

---
 internal/unsafereflect/type.go | 44 +++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/unsafereflect/type.go b/internal/unsafereflect/type.go
index 821c736..a3c8f29 100644
--- a/internal/unsafereflect/type.go
+++ b/internal/unsafereflect/type.go
@@ -139,6 +139,27 @@ type ptrType struct {
 	elem *rtype // pointer element (pointed at) type
 }
 
+// sliceType represents a slice type.
+type sliceType struct {
+	rtype
+	elem *rtype // slice element type
+}
+
+// arrayType represents a fixed array type.
+type arrayType struct {
+	rtype
+	elem  *rtype // array element type
+	slice *rtype // slice type
+	len   uintptr
+}
+
+// chanType represents a channel type.
+type chanType struct {
+	rtype
+	elem *rtype  // channel element type
+	dir  uintptr // channel direction (ChanDir)
+}
+
 // funcType represents a function type.
 type funcType struct {
 	rtype
@@ -187,8 +208,29 @@ func (t *rtype) methods() []method {
 			structType
 			u uncommonType
 		})(unsafe.Pointer(t)).u.methods()
-	default:
+	case reflect.Slice:
+		return (*struct {
+			sliceType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Array:
+		return (*struct {
+			arrayType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Chan:
+		return (*struct {
+			chanType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Map:
+		// the layout of map types depends on the go version
 		return nil
+	default:
+		return (*struct {
+			rtype
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
 	}
 }
 
-- 
2.43.0


From c058c157f968a19102c427a58738fc100dc2f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 18/29] fix: GetMethod returns the closure a function field
 holds

---
 utils.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/utils.go b/utils.go
index 4f6bcac..da88314 100644
--- a/utils.go
+++ b/utils.go
@@ -69,13 +69,14 @@ func getFieldMethod(instance interface{}, fieldName string) (interface{}, bool)
 		return nil, false
 	}
 
-	carrier := reflect.MakeFunc(field.Type(), nil)
-	type function struct {
-		_      uintptr
-		fnAddr *uintptr
+	if !field.CanInterface() {
+		// values of unexported fields can't be used, so read the field from a copy of the instance
+		instanceCopy := reflect.New(v.Type()).Elem()
+		instanceCopy.Set(v)
+		field = instanceCopy.FieldByName(fieldName)
+		field = reflect.NewAt(field.Type(), unsafe.Pointer(field.UnsafeAddr())).Elem()
 	}
-	*(*function)(unsafe.Pointer(&carrier)).fnAddr = field.Pointer()
-	return carrier.Interface(), true
+	return field.Interface(), true
 }
 
 // GetPrivateMethod resolve a certain public method from an instance.
-- 
2.43.0


From a7d9276fd08c8e3b60cb9d941a15cf1dc57b466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:00 +0000
Subject: [PATCH 19/29] fix: releasing a mock is accepted by pointer checking
 builds

---
 internal/monkey/fn/inject.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/monkey/fn/inject.go b/internal/monkey/fn/inject.go
index 104e422..f9e9924 100644
--- a/internal/monkey/fn/inject.go
+++ b/internal/monkey/fn/inject.go
@@ -49,7 +49,10 @@ func InjectInto(target reflect.Value, fnCode []byte) {
 }
 
 // Redirect makes a function made by InjectInto run the codes at the address, the injected codes are not used any more.
-func Redirect(function reflect.Value, addr uintptr) {
-	// the code pointer is the first word of a function value
-	atomic.StoreUintptr((*uintptr)(unsafe.Pointer(common.PtrAt(function))), addr)
+func Redirect(target reflect.Value, addr uintptr) {
+	type function struct {
+		_      uintptr
+		fnAddr *uintptr
+	}
+	atomic.StoreUintptr((*function)(unsafe.Pointer(&target)).fnAddr, addr)
 }
-- 
2.43.0


From 2f37a79a7dcbdb5583cc2703a57668d5db40ba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:06 +0000
Subject: [PATCH 20/29] fix: debug messages end their lines

Without the line end the next line the program printed was appended to the
message.
---
 internal/monkey/mem/write_darwin.go | 2 +-
 internal/monkey/mem/write_linux.go  | 2 +-
 internal/tool/caller.go             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/monkey/mem/write_darwin.go b/internal/monkey/mem/write_darwin.go
index 529a300..99015d1 100644
--- a/internal/monkey/mem/write_darwin.go
+++ b/internal/monkey/mem/write_darwin.go
@@ -33,7 +33,7 @@ func Write(target uintptr, data []byte) error {
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(darwin)")
+	tool.DebugPrintf("Write end(darwin)\n")
 	return nil
 }
 
diff --git a/internal/monkey/mem/write_linux.go b/internal/monkey/mem/write_linux.go
index cab438c..20a781e 100644
--- a/internal/monkey/mem/write_linux.go
+++ b/internal/monkey/mem/write_linux.go
@@ -33,7 +33,7 @@ func Write(target uintptr, data []byte) error {
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(linux)")
+	tool.DebugPrintf("Write end(linux)\n")
 	return nil
 }
 
diff --git a/internal/tool/caller.go b/internal/tool/caller.go
index c993892..3e377a5 100644
--- a/internal/tool/caller.go
+++ b/internal/tool/caller.go
@@ -39,7 +39,7 @@ func (c CallerInfo) String() string {
 func OuterCaller() (info CallerInfo) {
 	defer func() {
 		if err := recover(); err != nil {
-			DebugPrintf("OuterCaller: get stack failed, err: %v", err)
+			DebugPrintf("OuterCaller: get stack failed, err: %v\n", err)
 			info = CallerInfo(runtime.Frame{File: "Nan"})
 		}
 	}()
-- 
2.43.0


From deaf6970795c025cea81049daa003f21a694de85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 21/29] fix: stack shrinking before the original runs cannot
 take the room it needs

The original is entered without its stack check. Growing the stack before is
not enough: several collections may shrink it again before the original is
entered, which then overwrote memory outside of the stack. A stack shrinks
only if less than a quarter of it is in use, so using as much as has to be
free guarantees the room.
---
 internal/monkey/patch.go |  2 +-
 internal/tool/stack.go   | 46 +++++++++++++++++++++++++++++++---------
 mock.go                  |  6 ++----
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 2033634..d5a25e6 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -95,7 +95,7 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// construct the proxy code
 	proxyCode := common.AllocatePage()
 	// leave out the stack check: its branch is relative, and it starts the (patched) target over again. The caller of the
-	// proxy makes sure that there is enough stack, see tool.GrowStack
+	// proxy makes sure that there is enough stack, see tool.CallUnchecked
 	proxyBegin := inst.StackCheck(targetCodeBuf)
 	proxyEnd := cuttingIdx
 	if proxyEnd < proxyBegin {
diff --git a/internal/tool/stack.go b/internal/tool/stack.go
index 88a8b60..59c0003 100644
--- a/internal/tool/stack.go
+++ b/internal/tool/stack.go
@@ -16,20 +16,46 @@
 
 package tool
 
-// maxUncheckedFrame is the biggest frame of a function called without stack check
-const maxUncheckedFrame = 4096
+import "reflect"
 
-// GrowStack makes sure that the current goroutine is able to call a function without stack check. It provides much more
-// than that, because the stack may shrink in between.
-func GrowStack() {
-	growStack(4)
+const (
+	// maxUncheckedFrame is the biggest frame of a function called without stack check
+	maxUncheckedFrame = 4096
+	// reflectFrames is what calling a function by reflection needs besides the arguments and results
+	reflectFrames = 4096
+)
+
+// CallUnchecked calls a function which may lack the stack check, so there has to be enough stack in advance.
+//
+// The stack may shrink in between, but only to the half and only if less than a quarter of it is in use, so it always keeps
+// at least as much free as is used. Thus, we use as much as we need to be free.
+func CallUnchecked(f reflect.Value, args []reflect.Value) []reflect.Value {
+	need := maxUncheckedFrame + reflectFrames
+	for i := 0; i < f.Type().NumIn(); i++ {
+		need += 2 * int(f.Type().In(i).Size())
+	}
+	for i := 0; i < f.Type().NumOut(); i++ {
+		need += 2 * int(f.Type().Out(i).Size())
+	}
+	return callUnchecked(f, args, need, need)
+}
+
+//go:noinline
+func callUnchecked(f reflect.Value, args []reflect.Value, use, need int) []reflect.Value {
+	var frame [maxUncheckedFrame]byte
+	if use > 0 {
+		frame[use%len(frame)] = 1
+		return callUnchecked(f, args, use-len(frame), need)
+	}
+	frame[0] = growStack(need)
+	return ReflectCall(f, args)
 }
 
 //go:noinline
-func growStack(n int) byte {
+func growStack(need int) byte {
 	var frame [maxUncheckedFrame]byte
-	if n > 0 {
-		frame[n] = growStack(n - 1)
+	if need > 0 {
+		frame[need%len(frame)] = growStack(need - len(frame))
 	}
-	return frame[n]
+	return frame[0]
 }
diff --git a/mock.go b/mock.go
index b3ae936..eede591 100644
--- a/mock.go
+++ b/mock.go
@@ -249,8 +249,7 @@ func (mocker *Mocker) buildHook() {
 	proxySetter := mocker.buildProxy()
 
 	originExec := func(args []reflect.Value) []reflect.Value {
-		tool.GrowStack()
-		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), args)
+		return tool.CallUnchecked(reflect.ValueOf(mocker.proxy).Elem(), args)
 	}
 
 	match := []func(args []reflect.Value) bool{}
@@ -324,14 +323,13 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		missReceiver := mocker.missReceiver(mocker.target.Type(), pElem.Interface())
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				tool.GrowStack()
 				if missReceiver {
 					innerArgs = append([]reflect.Value{args[receiverArg]}, innerArgs...)
 				}
 				if generic {
 					innerArgs = append(innerArgs[:genericArg:genericArg], append([]reflect.Value{args[genericArg]}, innerArgs[genericArg:]...)...)
 				}
-				return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), innerArgs)
+				return tool.CallUnchecked(reflect.ValueOf(mocker.proxy).Elem(), innerArgs)
 			}))
 		}
 	}
-- 
2.43.0


From 75678130747bf76c0602770a289b37b7c3347e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 22/29] fix: debug messages are not printed while the world is
 stopped

---
 internal/monkey/mem/write.go        | 3 +++
 internal/monkey/mem/write_darwin.go | 5 -----
 internal/monkey/mem/write_linux.go  | 5 -----
 3 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 5d71863..bb0344e 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -25,6 +25,8 @@ import (
 // WriteWithSTW copies data bytes to the target address and replaces the original bytes, during which it will stop the
 // world (only the current goroutine's P is running).
 func WriteWithSTW(target uintptr, data []byte) {
+	// nothing may be printed while the world is stopped: printing can block, and then nothing can go on
+	tool.DebugPrintf("Write: target(0x%x), target page(0x%x), len(%v)\n", target, common.PageOf(target), len(data))
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
 
@@ -46,4 +48,5 @@ func WriteWithSTW(target uintptr, data []byte) {
 	}
 
 	ctx.StartTheWorld()
+	tool.DebugPrintf("Write end\n")
 }
diff --git a/internal/monkey/mem/write_darwin.go b/internal/monkey/mem/write_darwin.go
index 99015d1..2f23723 100644
--- a/internal/monkey/mem/write_darwin.go
+++ b/internal/monkey/mem/write_darwin.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(darwin)\n")
 	return nil
 }
 
diff --git a/internal/monkey/mem/write_linux.go b/internal/monkey/mem/write_linux.go
index 20a781e..85cb171 100644
--- a/internal/monkey/mem/write_linux.go
+++ b/internal/monkey/mem/write_linux.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(linux)\n")
 	return nil
 }
 
-- 
2.43.0


From b2798006b38b6ce132cb993c2f7bd747ca27f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 23/29] fix: counters started with the calls of before when a
 mock was activated

A call that was still running when its mock was released counts
afterwards; the next activation of the mock then started with it.
---
 mock.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mock.go b/mock.go
index eede591..e76a6f0 100644
--- a/mock.go
+++ b/mock.go
@@ -344,6 +344,9 @@ func (mocker *Mocker) Patch() *Mocker {
 		return mocker
 	}
 	checkReMock(mocker)
+	// calls that were still running when the mock was released may have counted since
+	atomic.StoreInt64(&mocker.times, 0)
+	atomic.StoreInt64(&mocker.mockTimes, 0)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
-- 
2.43.0


From 308fee6b7099ded72458fcaa51d53f9980c240ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:25 +0000
Subject: [PATCH 24/29] fix: goroutine ids are read from the wrong place with
 go1.25

---
 internal/tool/goroutine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/tool/goroutine.go b/internal/tool/goroutine.go
index 9dd4a60..2ade795 100644
--- a/internal/tool/goroutine.go
+++ b/internal/tool/goroutine.go
@@ -24,7 +24,8 @@ import (
 )
 
 // The `goid` field offset in the struct g in the runtime package
-// 152 before, 160 after go1.22 (go1.23 introduced the `syscallbp` field before goid)
+// 152 before, 160 after go1.22 (go1.23 introduced the `syscallbp` field before goid), 152 again after go1.24 (go1.25 removed
+// the `ret` field of gobuf)
 var gGoroutineIDOffset uintptr
 
 func init() {
@@ -33,6 +34,9 @@ func init() {
 	if len(vcode) >= 2 && vcode[0] == "1" {
 		if subv, err := strconv.ParseInt(vcode[1], 10, 64); err == nil && subv > 22 {
 			gGoroutineIDOffset = 160 // Go1.23+
+			if subv > 24 {
+				gGoroutineIDOffset = 152 // Go1.25+
+			}
 		}
 	}
 }
-- 
2.43.0


From 65e72fa38d7c96eeeffea2f508dbf365bc47f761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:43 +0000
Subject: [PATCH 25/29] fix: PatchConvey with nil, which skips the scope,
 panicked

---
 convey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index c02eb04..c503bd9 100644
--- a/convey.go
+++ b/convey.go
@@ -34,7 +34,7 @@ func init() {
 
 func PatchConvey(items ...interface{}) {
 	for i, item := range items {
-		if reflect.TypeOf(item).Kind() == reflect.Func {
+		if item != nil && reflect.TypeOf(item).Kind() == reflect.Func { // a nil action skips the scope
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
 				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 				defer func() {
-- 
2.43.0


From 599e206475abaecbd183f107234802c679d3d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:32 +0000
Subject: [PATCH 26/29] fix: start the world again before a failed write is
 reported (panic)

---
 internal/monkey/mem/write.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index bb0344e..b1da652 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -30,23 +30,24 @@ func WriteWithSTW(target uintptr, data []byte) {
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
 
+	var err error
 	begin := target
 	end := target + uintptr(len(data))
-	for begin < end {
+	for begin < end && err == nil {
 		if common.PageOf(begin) < common.PageOf(end) {
 			nextPage := common.PageOf(begin) + uintptr(common.PageSize())
 			buf := data[:nextPage-begin]
 			data = data[nextPage-begin:]
-			err := Write(begin, buf)
-			tool.Assert(err == nil, err)
+			err = Write(begin, buf)
 			begin += uintptr(len(buf))
 			continue
 		}
-		err := Write(begin, data)
-		tool.Assert(err == nil, err)
+		err = Write(begin, data)
 		break
 	}
 
+	// the error must not be reported (panic) until the world has been started again
 	ctx.StartTheWorld()
+	tool.Assert(err == nil, err)
 	tool.DebugPrintf("Write end\n")
 }
-- 
2.43.0


From d41f9cd352546a0d2f27fa027120f583576016b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:29 +0000
Subject: [PATCH 27/29] fix: heads with VEX-encoded or unknown instructions
 were cut at a wrong place

---
 internal/monkey/inst/disasm_amd64.go | 40 ++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/monkey/inst/disasm_amd64.go b/internal/monkey/inst/disasm_amd64.go
index a934f1c..cab3a0a 100644
--- a/internal/monkey/inst/disasm_amd64.go
+++ b/internal/monkey/inst/disasm_amd64.go
@@ -59,8 +59,13 @@ func Disassemble(code []byte, required int, checkLen bool) int {
 	var inst x86asm.Inst
 
 	for pos < required {
+		if n := vexLen(code[pos:]); n > 0 {
+			pos += n
+			continue
+		}
 		inst, err = x86asm.Decode(code[pos:], 64)
 		tool.Assert(err == nil, err)
+		tool.Assert(inst.Op != 0, "unrecognized instruction") // only its prefixes were decoded
 		tool.DebugPrintf("Disassemble: inst: %v\n", inst)
 		tool.Assert(inst.Op != x86asm.RET || !checkLen, "function is too short to patch")
 		pos += inst.Len
@@ -68,6 +73,41 @@ func Disassemble(code []byte, required int, checkLen bool) int {
 	return pos
 }
 
+// vexLen returns the length of an instruction with VEX prefix (AVX, FMA, BMI), 0 if the code begins with another one. x86asm takes
+// most of them for other instructions.
+func vexLen(code []byte) int {
+	var pos, opMap int
+	switch code[0] {
+	case 0xc5:
+		pos, opMap = 2, 1
+	case 0xc4:
+		pos, opMap = 3, int(code[1]&0x1f)
+	default:
+		return 0
+	}
+	op := code[pos]
+	pos++
+	if opMap == 1 && op == 0x77 { // VZEROUPPER, VZEROALL
+		return pos
+	}
+	mod, rm := code[pos]>>6, code[pos]&7
+	pos++
+	if mod != 3 && rm == 4 { // SIB
+		rm = code[pos] & 7
+		pos++
+	}
+	switch {
+	case mod == 1:
+		pos++
+	case mod == 2 || mod == 0 && rm == 5:
+		pos += 4
+	}
+	if opMap == 3 || opMap == 1 && (op >= 0x70 && op <= 0x73 || op == 0xc2 || op >= 0xc4 && op <= 0xc6) { // immediate operand
+		pos++
+	}
+	return pos
+}
+
 // StackCheck returns the length of the stack check at the beginning of a function, 0 if there is none. Functions with a
 // frame of more than 4K use another check, which is not considered here.
 //
-- 
2.43.0


From 94cd72a92d256748fbcd943f005420ec2c5468c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:07 +0000
Subject: [PATCH 28/29] fix: GetMethod ends for values that contain themselves

An embedded pointer may lead back to the value it is part of; the search for a nested
method followed it for ever.
---
 utils.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index da88314..3e36ed5 100644
--- a/utils.go
+++ b/utils.go
@@ -104,8 +104,26 @@ func GetNestedMethod(instance interface{}, methodName string) interface{} {
 }
 
 func getNestedMethod(val reflect.Value, methodName string) (reflect.Method, bool) {
+	return findNestedMethod(val, methodName, make(map[visitedPtr]bool))
+}
+
+// visitedPtr is a pointer that findNestedMethod has followed
+type visitedPtr struct {
+	typ reflect.Type
+	ptr uintptr
+}
+
+func findNestedMethod(val reflect.Value, methodName string, visited map[visitedPtr]bool) (reflect.Method, bool) {
 	typ := val.Type()
 	kind := typ.Kind()
+	if kind == reflect.Ptr {
+		// an embedded pointer may lead back to a value it is part of
+		ptr := visitedPtr{typ: typ, ptr: val.Pointer()}
+		if visited[ptr] {
+			return reflect.Method{}, false
+		}
+		visited[ptr] = true
+	}
 	if kind == reflect.Ptr || kind == reflect.Interface {
 		val = val.Elem()
 	}
@@ -121,7 +139,7 @@ func getNestedMethod(val reflect.Value, methodName string) (reflect.Method, bool
 				// there is no need to acquire non-anonymous method
 				continue
 			}
-			if m, ok := getNestedMethod(val.Field(i), methodName); ok {
+			if m, ok := findNestedMethod(val.Field(i), methodName, visited); ok {
 				return m, true
 			}
 		}
-- 
2.43.0


From 0812915b2da1f8e6b967b81f74d875269867eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:18 +0000
Subject: [PATCH 29/29] fix: a method hides a function field of an embedded
 struct in GetMethod

GetMethod returned the function field promoted from an embedded struct for the name of an
unexported method of the instance, which is what a call runs.
---
 utils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils.go b/utils.go
index 3e36ed5..3f1fb9d 100644
--- a/utils.go
+++ b/utils.go
@@ -64,6 +64,13 @@ func getFieldMethod(instance interface{}, fieldName string) (interface{}, bool)
 		return nil, false
 	}
 
+	if structField, ok := v.Type().FieldByName(fieldName); ok && len(structField.Index) > 1 {
+		// a method of the instance hides the field of an embedded struct
+		if _, _, ok := unsafereflect.MethodByName(instance, fieldName); ok {
+			return nil, false
+		}
+	}
+
 	field := v.FieldByName(fieldName)
 	if !field.IsValid() || field.Kind() != reflect.Func {
 		return nil, false
-- 
2.43.0

