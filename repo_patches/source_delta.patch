From 7beccb761a32f5bbf71278dc363b5e51efebd137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:24 +0000
Subject: [PATCH 01/45] fix: pop the scope when it is closed so variables of
 closed blocks stop being GC roots

---
 gc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gc.go b/gc.go
index ce9b9e7..9f6fd47 100644
--- a/gc.go
+++ b/gc.go
@@ -47,7 +47,9 @@ func (gs *GcState) OpenScope() {
 }
 
 func (gs *GcState) CloseScope() {
-	gs.roots = gs.roots[:gs.scopes[len(gs.scopes)-1]]
+	last := len(gs.scopes) - 1
+	gs.roots = gs.roots[:gs.scopes[last]]
+	gs.scopes = gs.scopes[:last]
 }
 
 func (gs *GcState) Add(off int, t *Type) {
-- 
2.43.0


From 8ef16a52977e883b6b7dcec35aaf40a3feb35429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:25 +0000
Subject: [PATCH 02/45] fix: convert raw arguments after all arguments are
 evaluated so spilled ones stay GC roots

---
 codegen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 330f8d8..68c4ad4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -593,9 +593,12 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		genExpr(asm, arg, false, f)
 		asm.ins(movq, rax, regs[i])
 		f.RegisterInUse(arg.typ)
+	}
 
-		// Create "raw" values for any external functions which require them
-		if fn.Is(External) && fn.RawValues {
+	// Create "raw" values for any external functions which require them. Only done once all arguments have
+	// been evaluated as raw values cannot be spilled as GC roots
+	if fn.Is(External) && fn.RawValues {
+		for i, arg := range n.stmts {
 			switch arg.typ.Kind {
 			case String, Array, Bytes:
 				// Modify pointer to point past length
-- 
2.43.0


From 7cbdbd9b27c20b50d536f84f38a7e82d02fcfb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:25 +0000
Subject: [PATCH 03/45] fix: track the loop variable of an array for loop as a
 GC root

---
 semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 455c491..a2253ca 100644
--- a/semantic.go
+++ b/semantic.go
@@ -483,7 +483,7 @@ func lowerForStatement(n *Node) {
 			}
 			val := newVar("$idx$", intType)
 			while := while(lt(val.copy(), length(arrayOrRange)))
-			while.stmts = append(while.stmts, as(n.left, access(arrayOrRange, val.copy())))
+			while.stmts = append(while.stmts, das(n.left, access(arrayOrRange, val.copy())))
 			while.stmts = append(while.stmts, n.stmts...)
 			while.stmts = append(while.stmts, inc(val.copy(), 1))
 			n.stmts = append(stmts, das(val, intLit(0)), while)
-- 
2.43.0


From 4ca4c7906d6fefcef198176114c6b9ae949dcdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:42 +0000
Subject: [PATCH 04/45] fix: track intermediate values pushed to the stack as
 GC roots

---
 codegen.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/codegen.go b/codegen.go
index 68c4ad4..c885bde 100644
--- a/codegen.go
+++ b/codegen.go
@@ -513,14 +513,14 @@ func genAssignStmt(asm asmWriter, n *Node, fn *function) {
 
 	// Evaluate expression & push result to stack
 	genExpr(asm, n.right, false, fn)
-	save(asm, fn, rax)
+	save(asm, fn, rax, n.right.typ)
 
 	// Evaluate mem location to store
 	slot := n.left
 	genExpr(asm, slot, true, fn)
 
 	// Pop result
-	restore(asm, fn, rbx)
+	restore(asm, fn, rbx, n.right.typ)
 	src := rbx
 
 	// Write slot
@@ -581,7 +581,7 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 		fn = s.Type.AsFunction()
 	} else {
 		genExpr(asm, n.left, false, f)
-		save(asm, f, rax)
+		save(asm, f, rax, n.left.typ)
 		fn = n.left.typ.AsFunction()
 	}
 
@@ -617,7 +617,7 @@ func genFnCall(asm asmWriter, n *Node, f *function) {
 
 	// Recover fn address from stack, if required
 	if s == nil {
-		restore(asm, f, rax)
+		restore(asm, f, rax, n.left.typ)
 	}
 
 	// Align stack as per ABI
@@ -690,21 +690,21 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 	case opOr, opAnd:
 
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		save(asm, fn, rax, nil)
 		genExpr(asm, expr.right, false, fn)
 		asm.ins(movq, rax, rbx)
-		restore(asm, fn, rax)
+		restore(asm, fn, rax, nil)
 		asm.ins(ins[expr.op], rbx, rax)
 
 	case opAdd, opSub, opMul, opDiv, opBOr, opBAnd, opBXor:
 
 		genExpr(asm, expr.left, false, fn)
 		untag(asm, expr.left, rax)
-		save(asm, fn, rax)
+		save(asm, fn, rax, nil)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
 		asm.ins(movq, rax, rbx)
-		restore(asm, fn, rax)
+		restore(asm, fn, rax, nil)
 		if expr.op == opDiv {
 			asm.ins(cqo) // Sign-extend rax into rdx
 		}
@@ -737,11 +737,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		genExpr(asm, expr.left, false, fn)
 		untag(asm, expr.left, rax)
-		save(asm, fn, rax)
+		save(asm, fn, rax, nil)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
 		asm.ins(movq, rax, rbx)
-		restore(asm, fn, rax)
+		restore(asm, fn, rax, nil)
 		asm.ins(cmpq, rbx, rax)
 		asm.ins(ins[expr.op], al)
 		asm.ins(andq, _true, rax) // Clear top bits
@@ -750,11 +750,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 		genExpr(asm, expr.left, false, fn)
 		untag(asm, expr.left, rax)
-		save(asm, fn, rax)
+		save(asm, fn, rax, nil)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
 		asm.ins(movq, rax, rcx)
-		restore(asm, fn, rax)
+		restore(asm, fn, rax, nil)
 		asm.ins(ins[expr.op], cl, rax)
 		tag(asm, expr, rax)
 
@@ -808,7 +808,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 	case opDot:
 
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		save(asm, fn, rax, expr.left.typ)
 		genExpr(asm, expr.right, false, fn)
 
 		inst := movq
@@ -816,14 +816,14 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 			inst = leaq
 		}
 		asm.ins(movq, rax, rbx)
-		restore(asm, fn, rax)
+		restore(asm, fn, rax, expr.left.typ)
 		asm.ins(inst, rax.index(rbx), rax)
 
 	case opArray:
 
 		// Calculate array address
 		genExpr(asm, expr.left, false, fn)
-		save(asm, fn, rax)
+		save(asm, fn, rax, expr.left.typ)
 
 		// Calculate index
 		genExpr(asm, expr.right, false, fn)
@@ -840,7 +840,7 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(cmpq, rax, rbx) // index - array.length
 
 		// Restore array address before jump!
-		restore(asm, fn, rax)
+		restore(asm, fn, rax, expr.left.typ)
 		asm.ins(jae, labelOp("ioob"))
 
 		// Displace + ptrSize to skip over length
@@ -893,13 +893,20 @@ func tagLenFor(tk TypeKind) int {
 	}
 }
 
-func save(asm asmWriter, fn *function, r reg) {
+// Pushes an intermediate value to the stack. Values with a type are tracked as a GC root (if required) until restored
+func save(asm asmWriter, fn *function, r reg, t *Type) {
 	asm.ins(pushq, r)
 	fn.incSp(1)
+	if t != nil {
+		fn.gcRoots.Add(fn.sp * ptrSize, t)
+	}
 }
 
-func restore(asm asmWriter, fn *function, r reg) {
+func restore(asm asmWriter, fn *function, r reg, t *Type) {
 	asm.ins(popq, r)
+	if t != nil {
+		fn.gcRoots.Remove(fn.sp * ptrSize, t)
+	}
 	fn.decSp(1)
 }
 
-- 
2.43.0


From d97aabb09309e24025100475b003c13db3fa8e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 05/45] fix: reject negative indexes into bytes and strings

---
 install/lib/bytes.clara   | 4 ++--
 install/lib/strings.clara | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 58bd149..8be3557 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -7,12 +7,12 @@ fn Bytes(length: int) bytes {
 fn length(b: bytes) int = b.toBytesHeader().length
 
 fn get(b: bytes, idx: int) int {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     return b.toPointer(8).readByte(idx).tag() // Tag after read
 }
 
 fn set(b: bytes, idx: int, val: int) {
-    assert(idx < b.length(), "idx is out of range")
+    assert(idx >= 0 and idx < b.length(), "idx is out of range")
     b.toPointer(8).writeByte(idx, val.untag()) // Untag before write
 }
 
diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 929edf9..dee5118 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -1,6 +1,6 @@
 // ---------------------------------------------------------------------------------------------------------------------
 fn byte(s: string, idx: int) int {
-    assert(idx < s.length, "idx is out of range")
+    assert(idx >= 0 and idx < s.length, "idx is out of range")
     return s.toPointer(8).readByte(idx).tag()
 }
 
-- 
2.43.0


From 015cccf3dd7e6018cb9805ee86365175f9fa12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 06/45] fix: reject negative and overflowing lengths for bytes
 and arrays

---
 install/lib/arrays.clara | 1 +
 install/lib/bytes.clara  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index 27a9f48..eedbf92 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -27,6 +27,7 @@ fn arrayNoInit«T»(length: int) []T = array(length, noInit«T»(), "[]T", 7)
 
 // TODO: Should be private
 fn array«T»(length: int, init: fn([]T), description: string, tag: int) []T {
+    assert(length >= 0 and length < (1 << 58), "array length is out of range") // Size in bytes must not overflow
     // TODO: Would be nice to lookup type ID for default & configure array type ID appropriately
     h := claralloc((length * 8) + 8, description, tag).toHeader() // pointer == 8 bytes, + 8 for length
     h.length = length
diff --git a/install/lib/bytes.clara b/install/lib/bytes.clara
index 8be3557..f69b996 100644
--- a/install/lib/bytes.clara
+++ b/install/lib/bytes.clara
@@ -1,4 +1,5 @@
 fn Bytes(length: int) bytes {
+    assert(length >= 0, "bytes length cannot be negative")
     header := claralloc(length + 8, "bytes", 1).toBytesHeader()
     header.length = length
     return header.toBytes()
-- 
2.43.0


From e68d5017b914c3da4268ea6cd9d4b66b70bda73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 07/45] fix: reject substrings outside the source

---
 install/lib/strings.clara | 1 +
 1 file changed, 1 insertion(+)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index dee5118..9f42b58 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -151,6 +151,7 @@ fn copyString(src: string, srcPos: int, dest: bytes, destPos: int) {
 fn toString(b: bytes) string = toString(b, b.length())
 fn toString(b: bytes, length: int) string = toString(b, 0, length)
 fn toString(b: bytes, pos: int, length: int) string {
+    assert(pos >= 0 and length >= 0 and pos + length <= b.toBytesHeader().length, "pos or length is out of range")
     s := Bytes(length + 1) // + 1 for NUL byte
     s.unsafe(0, type(bytesHeader)).length = length // Ugh!
     copyArray(b, pos, s, 0)
-- 
2.43.0


From 56208e1ab63c17f87ca20ff81fa4757b0a90e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 08/45] fix: copy bytes iteratively so that large copies do not
 exhaust the stack

---
 install/lib/arrays.clara | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/install/lib/arrays.clara b/install/lib/arrays.clara
index eedbf92..eb8fd64 100644
--- a/install/lib/arrays.clara
+++ b/install/lib/arrays.clara
@@ -1,11 +1,11 @@
 // ---------------------------------------------------------------------------------------------------------------------
 
 fn copyArray(src: bytes, srcPos: int, dest: bytes, destPos: int) {
-    if src.length() == srcPos or dest.length() == destPos {
-        return
+    while not (src.length() == srcPos or dest.length() == destPos) {
+        dest.set(destPos, src.get(srcPos))
+        srcPos = srcPos + 1
+        destPos = destPos + 1
     }
-    dest.set(destPos, src.get(srcPos))
-    copyArray(src, srcPos+1, dest, destPos+1)
 }
 
 fn setElement«T»(src: []T, pos: int, val: T) []T {
-- 
2.43.0


From da3f3d565bc98cb94f684436832f0497b182f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 09/45] fix: let a byte buffer with no capacity grow

---
 install/lib/strings.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/strings.clara b/install/lib/strings.clara
index 9f42b58..499fe65 100644
--- a/install/lib/strings.clara
+++ b/install/lib/strings.clara
@@ -116,7 +116,7 @@ fn append(buf: byteBuffer, b: int) {
 // ---------------------------------------------------------------------------------------------------------------------
 // TODO: Should be "private"
 fn grow(buf: byteBuffer, requiredSize: int) {
-    newSize := buf.data.length() * 2
+    newSize := (buf.data.length() + 1) * 2 // + 1 ensures an empty buffer grows
     while newSize < requiredSize {
         newSize = newSize * 2
     }
-- 
2.43.0


From ea6c61cb33830446984bf2dc24d6294619a12256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:02 +0000
Subject: [PATCH 10/45] fix: report the path of the file when a read fails

---
 install/lib/io.clara | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index fb268df..70746e5 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -12,7 +12,7 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(file.path), errnum())) : None«error»()
+    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 56a32746f0541beaf4cc144a893cd34df6e716ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:32 +0000
Subject: [PATCH 11/45] fix: read errno before allocating the error which
 reports it

---
 install/lib/io.clara | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/install/lib/io.clara b/install/lib/io.clara
index 70746e5..2365145 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -1,7 +1,13 @@
 // Helpers
 fn ioOk«T»(t: T) result«T, error» = Ok«T, error»(t)
-fn ioErr«T»() result«T, error» = Err«T, error»(Error(None«string»(), errnum()))
-fn ioErr«T»(msg: string) result«T, error» = Err«T, error»(Error(Some(msg), errnum()))
+fn ioErr«T»() result«T, error» {
+    err := errnum() // Must be first! Allocation can change errno
+    return Err«T, error»(Error(None«string»(), err))
+}
+fn ioErr«T»(msg: string) result«T, error» {
+    err := errnum() // Must be first! Allocation can change errno
+    return Err«T, error»(Error(Some(msg), err))
+}
 
 fn seek(f: file, off: int, mode: int) result«int, error» {
     pos := lseek(f.fd, off, mode)
@@ -12,7 +18,11 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    return read(f.fd, buf, size) == -1 ? Some(Error(Some(f.path), errnum())) : None«error»()
+    if read(f.fd, buf, size) == -1 {
+        err := errnum() // Must be first! Allocation can change errno
+        return Some(Error(Some(f.path), err))
+    }
+    return None«error»()
 }
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
-- 
2.43.0


From 967dc96a167355531cd013e44958a61fa4168b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:14 +0000
Subject: [PATCH 12/45] fix: read files to the end when reads are short or
 interrupted

---
 install/lib/fs.clara |  4 ++--
 install/lib/io.clara | 28 ++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/install/lib/fs.clara b/install/lib/fs.clara
index 5795188..633a30b 100644
--- a/install/lib/fs.clara
+++ b/install/lib/fs.clara
@@ -12,8 +12,8 @@ fn open(path: string) result«file, error» {
 fn readAll(f: file) result«string, error» {
     return f.size()
         .map(Bytes)
-        .peek(fn(buf: bytes) option«error» = f.read(buf, buf.length()))
-        .map(toString)
+        .then(fn(buf: bytes) result«string, error» =
+            f.readFully(buf, buf.length()).map(fn(n: int) string = buf.toString(n)))
 }
 
 fn size(f: file) result«int, error» =
diff --git a/install/lib/io.clara b/install/lib/io.clara
index 2365145..a25e62b 100644
--- a/install/lib/io.clara
+++ b/install/lib/io.clara
@@ -18,18 +18,38 @@ fn read(f: file, buf: bytes, size: int) option«error» {
     if size > buf.length() {
         return Some(Error(Some("buffer is too small for requested read size"), -1))
     }
-    if read(f.fd, buf, size) == -1 {
-        err := errnum() // Must be first! Allocation can change errno
-        return Some(Error(Some(f.path), err))
+    match f.readFully(buf, size) {
+        case Ok(n): return None«error»()
+        case Err(e): return Some(e)
     }
-    return None«error»()
 }
+
+// Reads until size bytes or end of file, returns number of bytes read
+fn readFully(f: file, buf: bytes, size: int) result«int, error» {
+    total := 0
+    done := false
+    while not done {
+        n := read(f.fd, buf.toPointer(8 + total), size - total) // 8 = skip length
+        if n == -1 {
+            if not (errnum() == 4) { // EINTR
+                return ioErr«int»(f.path)
+            }
+        } else {
+            total = total + n
+            done = n == 0 or total == size
+        }
+    }
+    return ioOk(total)
+}
+
 // ---------------------------------------------------------------------------------------------------------------------
 // External Functions
 // ---------------------------------------------------------------------------------------------------------------------
 
 #[RawValues]
 fn read(fd: int, buf: bytes, size: int) int
+#[RawValues]
+fn read(fd: int, buf: pointer, size: int) int
 
 // https://www.gnu.org/software/libc/manual/html_node/File-Position-Primitive.html
 //
-- 
2.43.0


From ccabb33485ff3181162a284df6fbe2a06b01de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:15 +0000
Subject: [PATCH 13/45] fix: pass arguments to the program in the order they
 were given

---
 install/init/bootstrap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/install/init/bootstrap.c b/install/init/bootstrap.c
index e5df462..b5695e0 100644
--- a/install/init/bootstrap.c
+++ b/install/init/bootstrap.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <getopt.h>
 #include "shared.h"
@@ -18,11 +19,15 @@ static struct option options[] =
 
 int main(int argc, char** argv, char** envp)
 {
+    // Parse a copy as getopt reorders its arguments & ignore any options which are intended for the program
+    char* args[argc + 1];
+    memcpy(args, argv, sizeof(args));
+    opterr = 0;
     while (1)
     {
         // Parse next option & check for end of input
         int index = 0;
-        int c = getopt_long(argc, argv, "g", options, &index);
+        int c = getopt_long(argc, args, "g", options, &index);
         if (c == -1)
         {
             break;
-- 
2.43.0


From 2968e4d11e0183a2ac20bdaf04d2ea208481c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:40 +0000
Subject: [PATCH 14/45] fix: report a syntax error when input ends in the
 middle of a declaration

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index d313a33..8ec2d00 100644
--- a/parse.go
+++ b/parse.go
@@ -77,7 +77,6 @@ func (p *Parser) Parse(tokens []*lex.Token, root *Node) (errs []error) {
 			// TODO: p.sync(lex.Fn, lex.Struct, lex.Enum)
 		}
 	}
-	p.need(lex.EOF)
 	return p.errs
 }
 
@@ -599,9 +598,10 @@ func (p *Parser) syntaxError(expected string) {
 
 func (p *Parser) onUnexpectedEof(errs *[]error) {
 	if r := recover(); r != nil {
-		*errs = p.errs
 		if r != errUnexpectedEof {
 			panic(r)
 		}
+		p.syntaxError("<more input>")
+		*errs = p.errs
 	}
 }
\ No newline at end of file
-- 
2.43.0


From cf514898833ec29a03849619cf2864d79eacafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:59 +0000
Subject: [PATCH 15/45] fix: number local functions per compilation so
 concurrent compilations do not interfere

---
 closures.go | 8 ++++----
 main.go     | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/closures.go b/closures.go
index e902bcb..ce9cf74 100644
--- a/closures.go
+++ b/closures.go
@@ -5,13 +5,13 @@ import (
 	"github.com/g-dx/clarac/lex"
 )
 
-var id = uint(0) // TODO: Find a better solution to this...
-
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node) {
+// lastId is the last ID assigned to a local function in this compilation
+func rewriteAnonFnAndClosures(rootNode *Node, n *Node, lastId *uint) {
 
 	if n.isLocalFn() {
 
-		id += 1
+		*lastId += 1
+		id := *lastId
 
 		freeVars := clIdentifyFreeVars(n)
 		if len(freeVars) > 0 {
diff --git a/main.go b/main.go
index a853ea5..0e20513 100644
--- a/main.go
+++ b/main.go
@@ -117,9 +117,10 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 
 	// Post-typecheck AST rewrite
 	WalkPostOrder(rootNode, func(n *Node) { rewriteArrayLiteralExpr(n, rootSymtab) })
+	lastFnId := uint(0)
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n, &lastFnId) })
 		}
 	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
-- 
2.43.0


From 4f2d16695f67d91ef544911c5c5863f1177c07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:59 +0000
Subject: [PATCH 16/45] fix: name local functions uniquely instead of randomly

---
 closures.go  | 1 +
 typecheck.go | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index ce9cf74..e9a0734 100644
--- a/closures.go
+++ b/closures.go
@@ -67,6 +67,7 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node, lastId *uint) {
 			// Hoist function to root & rename
 			fn := copyNode(n)
 			fn.token = lex.WithVal(fn.token, fmt.Sprintf("anonFn.%X", id))
+			fn.sym.Name = fn.token.Val
 			fn.sym.IsGlobal = true
 			rootNode.Add(fn)
 
diff --git a/typecheck.go b/typecheck.go
index 3bb470d..fd4bb8a 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"github.com/g-dx/clarac/console"
 	"github.com/g-dx/clarac/lex"
-	"math/rand"
 	"strings"
 )
 
@@ -201,7 +200,7 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 
 		// Closures will not have been annotated yet. Do it now.
 		if n.sym == nil {
-			_, err := processFnType(n, fmt.Sprintf("%X", rand.Uint32()), symtab, symtab.Child(), nil,false)
+			_, err := processFnType(n, fmt.Sprintf("fn.%p", n), symtab, symtab.Child(), nil,false)
 			if err != nil {
 				errs = append(errs, err)
 				goto end
-- 
2.43.0


From 6d55f0a601fa79d733e6259212745dd067560cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 17/45] fix: report errors writing the generated assembly

---
 asm.go     | 11 +++++------
 codegen.go |  3 +--
 main.go    |  4 +++-
 peep.go    |  2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/asm.go b/asm.go
index c615527..26e0238 100644
--- a/asm.go
+++ b/asm.go
@@ -336,7 +336,7 @@ type asmWriter interface {
 	fnStart(name string)
 	fnEnd()
 	ins(i inst, ops ...operand)
-	flush()
+	flush() error
 	roSymbol(name string, f func(w asmWriter)) operand
 	gcMap(name string, offsets []int) labelOp
 	taggedInt(i int)
@@ -355,10 +355,8 @@ func NewGasWriter(io io.Writer, debug bool) *gasWriter {
 }
 
 func (gw *gasWriter) write(asm string, a...interface{}) {
-	_, err := gw.w.WriteString(fmt.Sprintf(asm, a...))
-	if err != nil {
-		panic(err)
-	}
+	// Errors are remembered by the writer & returned by flush()
+	gw.w.WriteString(fmt.Sprintf(asm, a...))
 	gw.w.Flush()
 }
 
@@ -410,7 +408,7 @@ func (gw *gasWriter) stringLit(s string) operand {
 	return litOp(label + suffix)
 }
 
-func (gw *gasWriter) flush() {
+func (gw *gasWriter) flush() error {
 	gw.tab(".data")
 	for s, label := range gw.literals {
 
@@ -426,6 +424,7 @@ func (gw *gasWriter) flush() {
 		gw.write("   .ascii \"%v\\0\"\n", s[1:len(s)-1])
 	}
 	gw.literals = make(map[string]string) // Clear values
+	return gw.w.Flush()
 }
 
 func (gw *gasWriter) newLabel(s string) string {
diff --git a/codegen.go b/codegen.go
index c885bde..2bf47f4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -146,8 +146,7 @@ func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 	asm.spacer()
 	genTypeInfoTable(asm, gt)
 	asm.spacer()
-	asm.flush() // Write final values
-	return nil
+	return asm.flush() // Write final values
 }
 
 func genFunc(asm asmWriter, n *Node, fn *function, gt *GcTypes, alloc *Symbol) {
diff --git a/main.go b/main.go
index 0e20513..bfea972 100644
--- a/main.go
+++ b/main.go
@@ -150,7 +150,9 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	if err != nil {
 		return "", []error{errors.New(fmt.Sprintf("\nCode Gen Errors:\n %v\n", err))}
 	}
-	f.Close()
+	if err := f.Close(); err != nil {
+		return "", []error{err}
+	}
 
 	// Invoke gcc to link files
 	outputPath := filepath.Join(outPath, progName)
diff --git a/peep.go b/peep.go
index 2ef42c9..677d1e9 100644
--- a/peep.go
+++ b/peep.go
@@ -62,5 +62,5 @@ func (p *peep) fnStart(name string)                      { p.write(); p.w.fnStar
 func (p *peep) fnEnd()                                   { p.write() }
 func (p *peep) roSymbol(name string, f func(w asmWriter)) operand { p.write(); return p.w.roSymbol(name, f) }
 func (p *peep) gcMap(name string, offsets []int) labelOp { p.write(); return p.w.gcMap(name, offsets) }
-func (p *peep) flush()                                   { p.w.flush() }
+func (p *peep) flush() error                             { return p.w.flush() }
 func (p *peep) taggedInt(i int)                          { p.w.taggedInt(i) }
\ No newline at end of file
-- 
2.43.0


From f12614ff879f3f8bdd70c7e3b51e10d3a62b3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 18/45] fix: write the generated assembly to a file no other
 compilation uses

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index bfea972..f874889 100644
--- a/main.go
+++ b/main.go
@@ -137,12 +137,12 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	// Create assembly file
 	basename := filepath.Base(progPath)
 	progName := strings.TrimSuffix(basename, filepath.Ext(basename))
-	asmPath := fmt.Sprintf("%v/%v.S", os.TempDir(), progName)
-	os.Remove(asmPath) // Ignore error
-	f, err := os.Create(asmPath)
+	f, err := ioutil.TempFile("", progName+"-*.S") // Unique as other compilations may be running
 	if err != nil {
 		return "", []error{err}
 	}
+	asmPath := f.Name()
+	defer os.Remove(asmPath)
 
 	// Generate assembly
 	asm := NewGasWriter(f, options.showAsm)
-- 
2.43.0


From 6c72de1bddd15f82736970dc8d4ab0dbbc2e974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:51 +0000
Subject: [PATCH 19/45] fix: capture variables used to index an array in a
 closure

---
 closures.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/closures.go b/closures.go
index e9a0734..0367279 100644
--- a/closures.go
+++ b/closures.go
@@ -162,7 +162,7 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case n.Is(opIdentifier) && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot, opArray) && n.left.Is(opIdentifier):
+	case n.Is(opDot) && n.left.Is(opIdentifier):
 		if fc.isFree(n.left) {
 			fc.free[n.left.sym] = true
 		}
-- 
2.43.0


From a116a5198275b0c1d40240e96d5c892bfce03d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:30 +0000
Subject: [PATCH 20/45] fix: do not treat field names as variables captured by
 a closure

---
 closures.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/closures.go b/closures.go
index 0367279..b10254e 100644
--- a/closures.go
+++ b/closures.go
@@ -162,10 +162,8 @@ func (fc *freeVarChecker) IdentityFreeVars(n *Node) bool {
 	case n.Is(opIdentifier) && fc.isFree(n):
 		fc.free[n.sym] = true
 
-	case n.Is(opDot) && n.left.Is(opIdentifier):
-		if fc.isFree(n.left) {
-			fc.free[n.left.sym] = true
-		}
+	case n.Is(opDot):
+		WalkPreOrder(n.left, fc.IdentityFreeVars)
 		return false // No need to walk right!
 
 	case n.Is(opBlockFnDcl, opExprFnDcl) && n != fc.n:
-- 
2.43.0


From d2c05ff3fefce02eb41db46ffa73ba1fe25a31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:34 +0000
Subject: [PATCH 21/45] fix: preserve argument registers clobbered by division
 and shifts

---
 codegen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codegen.go b/codegen.go
index 2bf47f4..23fefdb 100644
--- a/codegen.go
+++ b/codegen.go
@@ -705,9 +705,13 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax, nil)
 		if expr.op == opDiv {
+			asm.ins(movq, rdx, r10) // Preserve rdx which may hold an argument of an enclosing call
 			asm.ins(cqo) // Sign-extend rax into rdx
 		}
 		asm.ins(ins[expr.op], rbx, rax)
+		if expr.op == opDiv {
+			asm.ins(movq, r10, rdx)
+		}
 		tag(asm, expr, rax)
 
 		// NOTES:
@@ -752,9 +756,11 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 		save(asm, fn, rax, nil)
 		genExpr(asm, expr.right, false, fn)
 		untag(asm, expr.right, rax)
+		asm.ins(movq, rcx, r10) // Preserve rcx which may hold an argument of an enclosing call
 		asm.ins(movq, rax, rcx)
 		restore(asm, fn, rax, nil)
 		asm.ins(ins[expr.op], cl, rax)
+		asm.ins(movq, r10, rcx)
 		tag(asm, expr, rax)
 
 	case opIdentifier:
-- 
2.43.0


From a5dc8c7ee6a1a645d770d4f1877c1cb309e15519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:29 +0000
Subject: [PATCH 22/45] fix: report errors inside ternary branches and array
 literal elements

An anonymous function has a type even when its body contains errors. The
errors of such sub-expressions were dropped, so an invalid program passed
type checking and crashed code generation.
---
 typecheck.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index fd4bb8a..da77eda 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -515,42 +515,47 @@ func typeCheckCase(n *Node, bound map[*Type]*Type, symtab *SymTab, fn *FunctionT
 
 func typeCheckTernary(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
 	cond := n.left
-	if errs := typeCheck(cond, symtab, fn, debug); !cond.hasType() {
+	errs := typeCheck(cond, symtab, fn, debug)
+	if !cond.hasType() {
 		return errs
 	}
 	if !cond.typ.Is(Boolean) {
-		return []error{ semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, cond.token, cond.typ, boolType))
 	}
 	ifExpr := n.stmts[0]
-	if errs := typeCheck(ifExpr, symtab, fn, debug); !ifExpr.hasType() {
+	errs = append(errs, typeCheck(ifExpr, symtab, fn, debug)...)
+	if !ifExpr.hasType() {
 		return errs
 	}
 	elseExpr := n.stmts[1]
-	if errs := typeCheck(elseExpr, symtab, fn, debug); !elseExpr.hasType() {
+	errs = append(errs, typeCheck(elseExpr, symtab, fn, debug)...)
+	if !elseExpr.hasType() {
 		return errs
 	}
 	if !ifExpr.typ.Matches(elseExpr.typ) {
-		return []error{ semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ) }
+		return append(errs, semanticError2(errMismatchedTypesMsg, elseExpr.token, elseExpr.typ, ifExpr.typ))
 	}
 	n.typ = ifExpr.typ
-	return nil
+	return errs
 }
 
 func typeCheckArrayLit(n *Node, symtab *SymTab, fn *FunctionType, debug bool) []error {
 	if len(n.stmts) == 0 {
 		return []error{ semanticError(errEmptyArrayLiteralMsg, n.token) }
 	}
+	var errs []error
 	for _, expr := range n.stmts {
-		if errs := typeCheck(expr, symtab, fn, debug); !expr.hasType() {
+		errs = append(errs, typeCheck(expr, symtab, fn, debug)...)
+		if !expr.hasType() {
 			return errs
 		}
 		// Type of first element defines type for rest of elements
 		if !expr.typ.Matches(n.stmts[0].typ) {
-			return []error{ semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, intType) }
+			return append(errs, semanticError2(errMismatchedTypesMsg, expr.token, expr.typ, intType))
 		}
 	}
 	n.typ = &Type{Kind: Array, Data: &ArrayType{Elem: n.stmts[0].typ}}
-	return nil
+	return errs
 }
 
 func typeCheckFor(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []error) {
-- 
2.43.0


From e082d1a32dbbca1e73322ffa16bc58d5d45b2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:54 +0000
Subject: [PATCH 23/45] fix: reject comparisons of types which cannot be
 compared

Comparing anything but integers passed type checking and then crashed code
generation. Booleans can be compared for equality; all other types are now
reported as invalid for the operator.
---
 codegen.go   | 10 ++++++++--
 semantic.go  |  5 +++++
 typecheck.go |  4 ++++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 23fefdb..a3c31b5 100644
--- a/codegen.go
+++ b/codegen.go
@@ -738,11 +738,17 @@ func genExpr(asm asmWriter, expr *Node, takeAddr bool, fn *function) {
 
 	case opGt, opGte, opLt, opLte, opEq:
 
+		// NOTE: Booleans are not tagged
+		tagged := expr.left.typ.Is(Integer)
 		genExpr(asm, expr.left, false, fn)
-		untag(asm, expr.left, rax)
+		if tagged {
+			untag(asm, expr.left, rax)
+		}
 		save(asm, fn, rax, nil)
 		genExpr(asm, expr.right, false, fn)
-		untag(asm, expr.right, rax)
+		if tagged {
+			untag(asm, expr.right, rax)
+		}
 		asm.ins(movq, rax, rbx)
 		restore(asm, fn, rax, nil)
 		asm.ins(cmpq, rbx, rax)
diff --git a/semantic.go b/semantic.go
index a2253ca..26fee3f 100644
--- a/semantic.go
+++ b/semantic.go
@@ -65,6 +65,11 @@ var operatorTypes = OperatorTypes{
 	opBXor:   {Integer},
 	opBLeft:  {Integer},
 	opBRight: {Integer},
+	opEq:     {Integer, Boolean},
+	opGt:     {Integer},
+	opGte:    {Integer},
+	opLt:     {Integer},
+	opLte:    {Integer},
 	// TODO: What about unary operators? Operators which return a different type?
 }
 
diff --git a/typecheck.go b/typecheck.go
index da77eda..bc94867 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -191,6 +191,10 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 			errs = append(errs, semanticError2(errMismatchedTypesMsg, left.token, left.typ, right.typ))
 			goto end
 		}
+		if !operatorTypes.isValid(n.op, left.typ.Kind) {
+			errs = append(errs, semanticError2(errInvalidOperatorTypeMsg, left.token, left.typ, n.token.Val))
+			goto end
+		}
 		n.typ = boolType
 
 	case opStructDcl, opEnumDcl:
-- 
2.43.0


From 9603fcc42ac52ebce3e43a43e4e60d90ab5053b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:23 +0000
Subject: [PATCH 24/45] fix: terminate type substitution for recursive structs

Passing a non-generic recursive struct to a generic function, or declaring a
generic struct which contains itself through an array, overflowed the
compiler's stack while substituting the types of the fields.
---
 typecheck.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index bc94867..a4be7a8 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -813,38 +813,50 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
 	}
+	return substituteTypeImpl(t, bound, make(map[*Type]*Type))
+}
+
+// NOTE: Structs already being substituted are tracked as they may be recursive
+func substituteTypeImpl(t *Type, bound map[*Type]*Type, structs map[*Type]*Type) *Type {
 	switch {
 	case t.Is(Array):
-		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteType(t.AsArray().Elem, bound)}}
+		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteTypeImpl(t.AsArray().Elem, bound, structs)}}
 
 	case t.Is(Function):
 		f := t.AsFunction()
 		var params []*Type
 		for _, p := range f.Params {
-			params = append(params, substituteType(p, bound))
+			params = append(params, substituteTypeImpl(p, bound, structs))
 		}
-		returnType := substituteType(f.ret, bound)
+		returnType := substituteTypeImpl(f.ret, bound, structs)
 		// TODO: Should Data be copied too?
 		return &Type{Kind: Function, Data:
 			&FunctionType{Kind: f.Kind, isVariadic: f.isVariadic, ret: returnType, Params: params, Data: f.Data, RawValues: f.RawValues}}
 
 	case t.Is(Struct):
 		s := t.AsStruct()
-		var types []*Type
+		if len(s.Types) == 0 {
+			return t // Not generic so nothing to substitute (and fields may be recursive)
+		}
+		if st, ok := structs[t]; ok {
+			return st
+		}
+		st := &StructType{Name: s.Name}
+		typ := &Type{Kind: Struct, Data: st}
+		structs[t] = typ
 		for _, tp := range s.Types {
-			types = append(types, substituteType(tp, bound))
+			st.Types = append(st.Types, substituteTypeImpl(tp, bound, structs))
 		}
-		var fields []*Symbol
 		for i, f := range s.Fields {
-			fields = append(fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, bound)})
+			st.Fields = append(st.Fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteTypeImpl(f.Type, bound, structs)})
 		}
-		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Fields: fields, Types: types}}
+		return typ
 
 	case t.Is(Enum):
 		e := t.AsEnum()
 		var types []*Type
 		for _, tp := range e.Types {
-			types = append(types, substituteType(tp, bound))
+			types = append(types, substituteTypeImpl(tp, bound, structs))
 		}
 		return &Type{Kind: Enum, Data: &EnumType{Name: e.Name, Types: types, Members: e.Members}}
 
-- 
2.43.0


From 4c93d9994bd8ea973551606687a4f8c8c01d2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:44 +0000
Subject: [PATCH 25/45] fix: emit string literals byte for byte

Literals with a line break crashed the compiler, ones with bytes which are not
valid UTF-8 were given a length larger than their data, and carriage returns
reached the program as line feeds.
---
 asm.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/asm.go b/asm.go
index 26e0238..47c1371 100644
--- a/asm.go
+++ b/asm.go
@@ -412,21 +412,35 @@ func (gw *gasWriter) flush() error {
 	gw.tab(".data")
 	for s, label := range gw.literals {
 
-		raw, err := strconv.Unquote(s)
-		if err != nil {
-			panic(err)
-		}
-
+		raw := unescape(s[1:len(s)-1])
 		gw.tab(".align", "8")
 		gw.label(label)
 		gw.taggedInt(readOnlyGcHeader(4)) // gc.go defines fixed IDs
 		gw.taggedInt(len(raw))
-		gw.write("   .ascii \"%v\\0\"\n", s[1:len(s)-1])
+		gw.write("   .ascii \"%v\\0\"\n", asciiLit(raw))
 	}
 	gw.literals = make(map[string]string) // Clear values
 	return gw.w.Flush()
 }
 
+// Replaces the escape sequences accepted by the lexer with the bytes they represent
+func unescape(s string) string {
+	return strings.NewReplacer("\\r", "\r", "\\n", "\n", "\\\\", "\\", "\\\"", "\"").Replace(s)
+}
+
+// Describes the exact bytes of a string in the form expected by the .ascii directive
+func asciiLit(s string) string {
+	var sb strings.Builder
+	for i := 0; i < len(s); i++ {
+		if c := s[i]; c < ' ' || c > '~' || c == '"' || c == '\\' {
+			fmt.Fprintf(&sb, "\\%03o", c)
+		} else {
+			sb.WriteByte(c)
+		}
+	}
+	return sb.String()
+}
+
 func (gw *gasWriter) newLabel(s string) string {
 	label := fmt.Sprintf("%v_%v", s, gw.lIndex)
 	gw.lIndex++
-- 
2.43.0


From 79973e27d7eb2f9e18efa5f93dd330054d2bdb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:27 +0000
Subject: [PATCH 26/45] fix: -types crashed at the root node of the tree

---
 typecheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index a4be7a8..d427a58 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -937,6 +937,10 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 //---------------------------------------------------------------------------------------------------------------
 
 func printTypeInfo(n *Node) {
+	if n.token == nil {
+		return // Not part of any source file, e.g. the root node
+	}
+
 	// TODO: Fix the type name printing!
 	calculatedType := "<EMPTY>"
 	if n.typ != nil {
-- 
2.43.0


From fb1b1bd9977664a94818336073f1da14b2eea340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:27 +0000
Subject: [PATCH 27/45] fix: printing a type with unknown parts crashed the
 compiler

---
 symtab.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symtab.go b/symtab.go
index d1faa2d..a785d91 100644
--- a/symtab.go
+++ b/symtab.go
@@ -201,6 +201,9 @@ func (t *Type) AsParameter() *ParameterType {
 }
 
 func (t *Type) String() string {
+	if t == nil {
+		return "<unknown>" // Type could not be determined due to an earlier error
+	}
 	switch t.Kind {
 	case Array:
 		return t.Kind.String() + t.AsArray().Elem.String()
-- 
2.43.0


From d45dc7d39f064e36c9d61e303efcf5599b9f8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:37 +0000
Subject: [PATCH 28/45] fix: a type named like the constructor of a struct
 crashed the compiler

---
 semantic.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/semantic.go b/semantic.go
index 26fee3f..e6d837f 100644
--- a/semantic.go
+++ b/semantic.go
@@ -635,7 +635,6 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-		var n *Node
 		for _, x := range root.stmts {
 			if x.isFuncDcl() && x.token.Val == constructorName {
 				n = x
-- 
2.43.0


From 5b8265a7d342944853db93066ee0ee0e79901e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:07 +0000
Subject: [PATCH 29/45] fix: overloaded function arguments were resolved by
 call candidates which then failed to match

---
 typecheck.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index d427a58..ccdbdaf 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -732,6 +732,9 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 	// TODO: This is horrible!
 	//
 
+	// Overloaded function arguments are only resolved once the whole call is known to match
+	overloads := make(map[*Node]*Symbol)
+
 	if len(f.Types) == 0 {
 
 	argCheck:
@@ -741,8 +744,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					if s.Type.Matches(param) {
-						arg.sym = s
-						arg.typ = s.Type
+						overloads[arg] = s
 						continue argCheck
 					}
 				}
@@ -760,6 +762,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 				return nil, semanticError2(errMismatchedTypesMsg, arg.token, arg.typ, param)
 			}
 		}
+		resolveOverloads(overloads)
 		return f.ret, nil
 
 	} else {
@@ -775,9 +778,10 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			// If the argument is a named function is may be overloaded so check all symbols
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
-					if s.Type.PolyMatch(param, bound) {
-						arg.sym = s
-						arg.typ = s.Type
+					attempt := copyBound(bound) // NOTE: A failed match may leave type parameters bound
+					if s.Type.PolyMatch(param, attempt) {
+						bound = attempt
+						overloads[arg] = s
 						continue polyArgCheck
 					}
 				}
@@ -805,10 +809,26 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			}
 			return nil, semanticError2(errTypeParameterNotKnownMsg, n.token, strings.Join(types, ","), f.ret.String())
 		}
+		resolveOverloads(overloads)
 		return substituteType(f.ret, bound), nil
 	}
 }
 
+func resolveOverloads(overloads map[*Node]*Symbol) {
+	for arg, s := range overloads {
+		arg.sym = s
+		arg.typ = s.Type
+	}
+}
+
+func copyBound(bound map[*Type]*Type) map[*Type]*Type {
+	c := make(map[*Type]*Type, len(bound))
+	for k, v := range bound {
+		c[k] = v
+	}
+	return c
+}
+
 func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
-- 
2.43.0


From 0d671a5cc8bb8e54183f16929ebd0dd4028e3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:07 +0000
Subject: [PATCH 30/45] fix: the compiler crashed on functions, structs and
 closures with more parameters, fields or captures than registers

---
 closures.go | 10 +++++++++-
 main.go     |  2 +-
 semantic.go | 18 ++++++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/closures.go b/closures.go
index b10254e..c689ffa 100644
--- a/closures.go
+++ b/closures.go
@@ -6,7 +6,7 @@ import (
 )
 
 // lastId is the last ID assigned to a local function in this compilation
-func rewriteAnonFnAndClosures(rootNode *Node, n *Node, lastId *uint) {
+func rewriteAnonFnAndClosures(errs *[]error, rootNode *Node, n *Node, lastId *uint) {
 
 	if n.isLocalFn() {
 
@@ -14,6 +14,10 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node, lastId *uint) {
 		id := *lastId
 
 		freeVars := clIdentifyFreeVars(n)
+		if len(freeVars) > maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyCapturesMsg, n.token, n.token.Val, maxFnArgCount))
+			return
+		}
 		if len(freeVars) > 0 {
 
 			// ----------------------------------------------------------
@@ -88,6 +92,10 @@ func rewriteAnonFnAndClosures(rootNode *Node, n *Node, lastId *uint) {
 		// Closure/Anonymous/Fn Pointer Call Site
 		// ----------------------------------------------------------
 
+		if len(n.stmts) >= maxFnArgCount {
+			*errs = append(*errs, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, maxFnArgCount-1))
+			return
+		}
 		s := rootNode.symtab.MustResolve("invokeDynamic")
 
 		// AST: <name>(args...) -> invokeDynamic(<name>, args...)
diff --git a/main.go b/main.go
index f874889..7977819 100644
--- a/main.go
+++ b/main.go
@@ -120,7 +120,7 @@ func Compile(options options, claraLibPaths []string, progPath string, cLibPaths
 	lastFnId := uint(0)
 	for _, n := range rootNode.stmts {
 		if !isFn(n, "invokeDynamic") {
-			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(rootNode, n, &lastFnId) })
+			WalkPostOrder(n, func(n *Node) { rewriteAnonFnAndClosures(&errs, rootNode, n, &lastFnId) })
 		}
 	}
 	WalkPostOrder(rootNode, func(n *Node) { lowerMatchStatement(rootSymtab, n) })
diff --git a/semantic.go b/semantic.go
index e6d837f..853eaae 100644
--- a/semantic.go
+++ b/semantic.go
@@ -38,6 +38,7 @@ const (
 	errMatchNotExhaustiveMsg    = "%v:%d:%d: error, match over enum '%v' is not exhaustive"
 	errNotAnEnumCaseMsg         = "%v:%d:%d: error, '%v' is not an enum case"
 	errTooManyArgsMsg           = "%v:%d:%d: error, '%v' exceeds maximum argument count of '%v'"
+	errTooManyCapturesMsg       = "%v:%d:%d: error, '%v' exceeds maximum captured variable count of '%v'"
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
 	errEmptyArrayLiteralMsg     = "%v:%d:%d: error, empty array literal not allowed ... yet!"
 	errNoTypeParametersMsg      = "%v:%d:%d: error, type '%v' does not declare type parameters"
@@ -384,6 +385,9 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 		}
 		fnType.Params = append(fnType.Params, paramType)
 	}
+	if max := maxParamCount(n); len(n.params) > max {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, n.token.Val, max)
+	}
 
 	// Process return
 	fnType.ret = nothingType // Default case
@@ -402,6 +406,15 @@ func processFnType(n *Node, symName string, symtab *SymTab, child *SymTab, types
 	return fnType, nil
 }
 
+// maxParamCount returns the number of parameters which can be passed in registers. Local functions are called with
+// one additional argument (see invokeDynamic)
+func maxParamCount(n *Node) int {
+	if n.isLocalFn() {
+		return maxFnArgCount - 1
+	}
+	return maxFnArgCount
+}
+
 // TODO: Should return a list of errs
 func createType(symtab *SymTab, n *Node) (*Type, error) {
 	switch n.op {
@@ -644,6 +657,11 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 		return nil, semanticError(errConstructorOverrideMsg, n.token)
 	}
 
+	// Check all fields can be passed to constructor
+	if len(n.stmts) > maxFnArgCount {
+		return nil, semanticError2(errTooManyArgsMsg, n.token, name, maxFnArgCount)
+	}
+
 	// Create function
 	st := n.sym.Type
 	ft := &FunctionType{ret: st, Types: st.AsStruct().Types, Kind: StructCons}
-- 
2.43.0


From 31a79e14f7465b09fd71555522c786b1ec416a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:12 +0000
Subject: [PATCH 31/45] fix: names of types were accepted as values: reading
 them gave garbage, assigning to them crashed the program

---
 typecheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index ccdbdaf..d83fbf6 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -938,6 +938,10 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 	// If no symbol - try to find identifier declaration
 	if n.sym == nil {
 		sym, found := symtab.Resolve(n.token.Val)
+		// Types are not values but may share their name with functions
+		for found && sym.IsType {
+			sym, found = sym.Next, sym.Next != nil
+		}
 		if !found {
 			return semanticError(errUnknownVarMsg, n.token)
 		}
-- 
2.43.0


From fc9ae19757f2b8132f334ee58232d5cca161e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:37 +0000
Subject: [PATCH 32/45] fix: assignments to functions were accepted and crashed
 the program

---
 ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index ee8b38c..523403f 100644
--- a/ast.go
+++ b/ast.go
@@ -38,7 +38,7 @@ func (n *Node) isAddressable() bool {
 	switch n.op {
 	case opArray: return true
 	case opFuncCall: return n.typ.Is(Struct) || n.typ.Is(Array)
-	case opIdentifier: return true
+	case opIdentifier: return !n.sym.IsGlobal // Functions cannot be reassigned
 	case opDot: return true
 	default:
 		return false
-- 
2.43.0


From 8bd0ea90b7fd4bea346b0a9a1fec17cb6fd5cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:23 +0000
Subject: [PATCH 33/45] fix: variables and functions named printf, debug or
 unsafe could not be called

---
 typecheck.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index d83fbf6..2c403db 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -648,16 +648,14 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	}
 
 	// SPECIAL CASE: Skip dealing with variadic functions as printf & debug are the only ones
-	if n.left.token.Val == "printf" || n.left.token.Val == "debug" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
+	if s := specialFn(n, "printf", "debug"); s != nil {
 		n.left.sym = s
 		n.typ = nothingType
 		return errs
 	}
 
 	// SPECIAL CASE: Allow anything into the unsafe function
-	if n.left.token.Val == "unsafe" {
-		s, _ := fnSymtab.Resolve(n.left.token.Val)
+	if s := specialFn(n, "unsafe"); s != nil {
 		unsafe := s.Type.AsFunction()
 		if len(n.stmts) != 3 {
 			return append(errs, semanticError2(errInvalidNumberArgsMsg, n.left.token, len(n.stmts), len(unsafe.Params)))
@@ -699,6 +697,30 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 	return errs
 }
 
+// Finds which of the named external functions is called. These do not hide other declarations of their name:
+// local variables & functions which match the call
+func specialFn(n *Node, names ...string) (special *Symbol) {
+	for s := n.left.sym; s != nil; s = s.Next {
+		for _, name := range names {
+			if s.Name == name && s.IsGlobal && s.Type.AsFunction().Is(External) {
+				special = s
+			}
+		}
+	}
+	if special == nil {
+		return nil
+	}
+	for s := n.left.sym; s != nil; s = s.Next {
+		if s == special {
+			continue
+		}
+		if _, err := matchFuncCallByType(s.Type, n); err == nil {
+			return nil
+		}
+	}
+	return special
+}
+
 func matchFuncCallBySymbol(f *Symbol, n *Node) (s *Symbol,  retType *Type, errs []error) {
 	for s = f; s != nil; s = s.Next {
 		retType, err := matchFuncCallByType(s.Type, n)
-- 
2.43.0


From 857fd9eb1c4f0761e654ebf3a718ff2eb8c97bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:38 +0000
Subject: [PATCH 34/45] fix: external functions used as values gave an address
 which crashed the program when called

---
 semantic.go  |  1 +
 symtab.go    |  4 ++++
 typecheck.go | 19 +++++++++++++++++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index 853eaae..5e27bc4 100644
--- a/semantic.go
+++ b/semantic.go
@@ -37,6 +37,7 @@ const (
 	errUnknownEnumCaseMsg       = "%v:%d:%d: error, unknown case '%v' for enum '%v'"
 	errMatchNotExhaustiveMsg    = "%v:%d:%d: error, match over enum '%v' is not exhaustive"
 	errNotAnEnumCaseMsg         = "%v:%d:%d: error, '%v' is not an enum case"
+	errExternalFnValueMsg       = "%v:%d:%d: error, external function '%v' cannot be used as a value"
 	errTooManyArgsMsg           = "%v:%d:%d: error, '%v' exceeds maximum argument count of '%v'"
 	errTooManyCapturesMsg       = "%v:%d:%d: error, '%v' exceeds maximum captured variable count of '%v'"
 	errTypeParameterNotKnownMsg = "%v:%d:%d: error, type parameter(s) '%v' of return type '%v' not known, explicit function call type parameters required"
diff --git a/symtab.go b/symtab.go
index a785d91..4422151 100644
--- a/symtab.go
+++ b/symtab.go
@@ -471,6 +471,10 @@ func NewStackSym(name string, t *Type) *Symbol {
 	return &Symbol{Name: name, IsStack: true, Type: t}
 }
 
+func (s *Symbol) isExternalFn() bool {
+	return s.IsGlobal && s.Type.Is(Function) && s.Type.AsFunction().Is(External)
+}
+
 func (s *Symbol) Describe() string {
 	switch s.Type.Kind {
 	case Function:
diff --git a/typecheck.go b/typecheck.go
index 2c403db..c17210f 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -173,6 +173,9 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 
 	case opIdentifier:
 		err := typeCheckIdentifier(n, symtab, false)
+		if err == nil {
+			err = checkIsValue(n)
+		}
 		if err != nil {
 			errs = append(errs, err)
 		}
@@ -636,6 +639,9 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 		switch arg.op {
 		case opIdentifier:
 			err := typeCheckIdentifier(arg, symtab, true)
+			if err == nil {
+				err = checkIsValue(arg)
+			}
 			if err != nil {
 				return append(errs, err)
 			}
@@ -765,7 +771,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			// If the argument is a named function is may be overloaded so check all symbols
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
-					if s.Type.Matches(param) {
+					if !s.isExternalFn() && s.Type.Matches(param) {
 						overloads[arg] = s
 						continue argCheck
 					}
@@ -801,7 +807,7 @@ func matchFuncCallByType(t *Type, n *Node) (*Type, error) {
 			if arg.op == opIdentifier && arg.sym.Next != nil {
 				for s := arg.sym; s != nil; s = s.Next {
 					attempt := copyBound(bound) // NOTE: A failed match may leave type parameters bound
-					if s.Type.PolyMatch(param, attempt) {
+					if !s.isExternalFn() && s.Type.PolyMatch(param, attempt) {
 						bound = attempt
 						overloads[arg] = s
 						continue polyArgCheck
@@ -980,6 +986,15 @@ func typeCheckIdentifier(n *Node, symtab *SymTab, allowAmbiguous bool) error {
 	return nil
 }
 
+// External functions can only be called. They have no address which can be invoked like a Clara function
+func checkIsValue(n *Node) error {
+	if n.sym.Next == nil && n.sym.isExternalFn() {
+		n.typ = nil
+		return semanticError(errExternalFnValueMsg, n.token)
+	}
+	return nil
+}
+
 //---------------------------------------------------------------------------------------------------------------
 
 func printTypeInfo(n *Node) {
-- 
2.43.0


From 18cdb2ef959db049d19d5b9afd82ab1f40f7e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:10 +0000
Subject: [PATCH 35/45] fix: the compiler crashed on function expressions whose
 parameter types are invalid

---
 typecheck.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typecheck.go b/typecheck.go
index c17210f..937f9ec 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -212,8 +212,10 @@ func typeCheck(n *Node, symtab *SymTab, fn *FunctionType, debug bool) (errs []er
 				errs = append(errs, err)
 				goto end
 			}
+			if errs = append(errs, instantiateFunctionTypes(n)...); len(errs) > 0 {
+				goto end
+			}
 			n.typ = n.sym.Type
-			errs = append(errs, instantiateFunctionTypes(n)...)
 		}
 
 		// Type check stmts
-- 
2.43.0


From fa18781b1c7a522064b67fdcf0cec0758fc5dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:32 +0000
Subject: [PATCH 36/45] fix: the compiler crashed on uses of a generic struct
 with an invalid field

---
 semantic.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index 5e27bc4..bb4a277 100644
--- a/semantic.go
+++ b/semantic.go
@@ -231,8 +231,9 @@ loop:
 func instantiateFieldTypes(n *Node) (errs []error) {
 	for _, field := range n.stmts {
 		// TODO: Set field.typ to new type as well?
-		instantiated := instantiateType(n.symtab, field.left, &errs)
-		field.sym.Type = instantiated
+		if instantiated := instantiateType(n.symtab, field.left, &errs); instantiated != nil {
+			field.sym.Type = instantiated
+		}
 	}
 	return errs
 }
-- 
2.43.0


From 7717ce744336eb3a344696f22e57ffc26aae25d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 37/45] fix: fields of generic structs which are recursive, or
 declared after their use, had uninstantiated types

---
 codegen.go   |  2 +-
 symtab.go    | 17 ++++++++++++++++-
 typecheck.go | 29 ++++++++---------------------
 3 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/codegen.go b/codegen.go
index a3c31b5..8909f3a 100644
--- a/codegen.go
+++ b/codegen.go
@@ -222,7 +222,7 @@ func genTypeInfoTable(asm asmWriter, gt *GcTypes) {
 
 			// Gather field offsets
 			var off []int
-			for _, f := range t.AsStruct().Fields {
+			for _, f := range t.AsStruct().GetFields() {
 				if f.Type.IsPointer() {
 					off = append(off, f.Addr/ptrSize)
 				}
diff --git a/symtab.go b/symtab.go
index 4422151..f8a0652 100644
--- a/symtab.go
+++ b/symtab.go
@@ -287,10 +287,25 @@ type StructType struct {
 	Name   string
 	Fields []*Symbol
 	Types  []*Type
+
+	// Only set for instantiated generic structs
+	generic *StructType
+	bound   map[*Type]*Type
+}
+
+// Fields of instantiated structs are created on first use as structs may be recursive & refer to structs which
+// are declared later
+func (st *StructType) GetFields() []*Symbol {
+	if st.generic != nil && st.Fields == nil {
+		for i, f := range st.generic.GetFields() {
+			st.Fields = append(st.Fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteType(f.Type, st.bound)})
+		}
+	}
+	return st.Fields
 }
 
 func (st *StructType) GetField(name string) *Symbol {
-	for _, field := range st.Fields {
+	for _, field := range st.GetFields() {
 		if field.Name == name {
 			return field
 		}
diff --git a/typecheck.go b/typecheck.go
index 937f9ec..fe70dfc 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -863,22 +863,17 @@ func substituteType(t *Type, bound map[*Type]*Type) *Type {
 	if len(bound) == 0 {
 		return t
 	}
-	return substituteTypeImpl(t, bound, make(map[*Type]*Type))
-}
-
-// NOTE: Structs already being substituted are tracked as they may be recursive
-func substituteTypeImpl(t *Type, bound map[*Type]*Type, structs map[*Type]*Type) *Type {
 	switch {
 	case t.Is(Array):
-		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteTypeImpl(t.AsArray().Elem, bound, structs)}}
+		return &Type{Kind: Array, Data: &ArrayType{Elem: substituteType(t.AsArray().Elem, bound)}}
 
 	case t.Is(Function):
 		f := t.AsFunction()
 		var params []*Type
 		for _, p := range f.Params {
-			params = append(params, substituteTypeImpl(p, bound, structs))
+			params = append(params, substituteType(p, bound))
 		}
-		returnType := substituteTypeImpl(f.ret, bound, structs)
+		returnType := substituteType(f.ret, bound)
 		// TODO: Should Data be copied too?
 		return &Type{Kind: Function, Data:
 			&FunctionType{Kind: f.Kind, isVariadic: f.isVariadic, ret: returnType, Params: params, Data: f.Data, RawValues: f.RawValues}}
@@ -886,27 +881,19 @@ func substituteTypeImpl(t *Type, bound map[*Type]*Type, structs map[*Type]*Type)
 	case t.Is(Struct):
 		s := t.AsStruct()
 		if len(s.Types) == 0 {
-			return t // Not generic so nothing to substitute (and fields may be recursive)
-		}
-		if st, ok := structs[t]; ok {
-			return st
+			return t // Not generic so nothing to substitute
 		}
-		st := &StructType{Name: s.Name}
-		typ := &Type{Kind: Struct, Data: st}
-		structs[t] = typ
+		var types []*Type
 		for _, tp := range s.Types {
-			st.Types = append(st.Types, substituteTypeImpl(tp, bound, structs))
-		}
-		for i, f := range s.Fields {
-			st.Fields = append(st.Fields, &Symbol{Name: f.Name, Addr: i * ptrSize, Type: substituteTypeImpl(f.Type, bound, structs)})
+			types = append(types, substituteType(tp, bound))
 		}
-		return typ
+		return &Type{Kind: Struct, Data: &StructType{Name: s.Name, Types: types, generic: s, bound: copyBound(bound)}}
 
 	case t.Is(Enum):
 		e := t.AsEnum()
 		var types []*Type
 		for _, tp := range e.Types {
-			types = append(types, substituteTypeImpl(tp, bound, structs))
+			types = append(types, substituteType(tp, bound))
 		}
 		return &Type{Kind: Enum, Data: &EnumType{Name: e.Name, Types: types, Members: e.Members}}
 
-- 
2.43.0


From 0aa0b1649a4c8f24d6e26df94634ea58a76090d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 38/45] fix: the declared parameters of printf and debug were
 not checked

---
 typecheck.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index fe70dfc..fb8e0bf 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -657,6 +657,15 @@ func typeCheckFuncCall(n *Node, fnSymtab *SymTab, symtab *SymTab, fn *FunctionTy
 
 	// SPECIAL CASE: Skip dealing with variadic functions as printf & debug are the only ones
 	if s := specialFn(n, "printf", "debug"); s != nil {
+		// Check declared parameters only
+		for i, param := range s.Type.AsFunction().Params {
+			if i >= len(n.stmts) {
+				return append(errs, semanticError2(errInvalidNumberArgsMsg, n.token, len(n.stmts), len(s.Type.AsFunction().Params)))
+			}
+			if !n.stmts[i].typ.Matches(param) {
+				return append(errs, semanticError2(errMismatchedTypesMsg, n.stmts[i].token, n.stmts[i].typ, param))
+			}
+		}
 		n.left.sym = s
 		n.typ = nothingType
 		return errs
-- 
2.43.0


From b16c593193e2ddff9a23aaecb34a36339bab2777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:03 +0000
Subject: [PATCH 39/45] fix: overloads of main were given the same symbol, so
 valid programs failed to assemble

---
 symtab.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/symtab.go b/symtab.go
index f8a0652..b8e7a81 100644
--- a/symtab.go
+++ b/symtab.go
@@ -360,9 +360,6 @@ func (ft *FunctionType) AsmName(name string) string {
 	if ft.Is(External) {
 		return name
 	}
-	if name == "main" {
-		return fnPrefix + "main"
-	}
 
 	// Build name safe for usage in ASM
 	buf := bytes.NewBufferString(fnPrefix)
-- 
2.43.0


From 0aa7e7a42576fe8c7e6914cf54e8889a1d99c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:55 +0000
Subject: [PATCH 40/45] fix: a generic struct or enum named array got the
 symbols of built in arrays: valid programs failed to assemble

---
 symtab.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symtab.go b/symtab.go
index b8e7a81..c120974 100644
--- a/symtab.go
+++ b/symtab.go
@@ -244,7 +244,8 @@ func (t *Type) String() string {
 func (t *Type) AsmName() string {
 	switch t.Kind {
 	case Array:
-		return fmt.Sprintf("array$%v$", t.AsArray().Elem.AsmName())
+		// NOTE: Double '$' as a generic type called 'array' may exist
+		return fmt.Sprintf("array$$%v$", t.AsArray().Elem.AsmName())
 	case Struct:
 		st := t.AsStruct()
 		if len(st.Types) == 0 {
-- 
2.43.0


From a03f65b9e8a1848ee9f7c06b9d4a435b2f12b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:16 +0000
Subject: [PATCH 41/45] fix: overloads which differ in their type parameters
 only were given the same symbol: valid programs failed to assemble

---
 symtab.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symtab.go b/symtab.go
index c120974..4eb3fed 100644
--- a/symtab.go
+++ b/symtab.go
@@ -277,6 +277,8 @@ func (t *Type) AsmName() string {
 			buf.WriteString("$")
 		}
 		return buf.String()
+	case Parameter:
+		return t.AsParameter().Name
 	default:
 		return t.Kind.String()
 	}
-- 
2.43.0


From 249b9db3c678bcb3e76fb950f8161566bde6e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:36 +0000
Subject: [PATCH 42/45] fix: the compiler crashed on functions with more
 variables than can be addressed

---
 codegen.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 8909f3a..41dd595 100644
--- a/codegen.go
+++ b/codegen.go
@@ -117,7 +117,9 @@ func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 	for _, n := range tree {
 		if n.isFuncDcl() {
 			fn.reset(n)
-			genFunc(asm, n, fn, gt, alloc)
+			if err := genFunc(asm, n, fn, gt, alloc); err != nil {
+				return err
+			}
 		}
 	}
 
@@ -149,7 +151,7 @@ func codegen(symtab *SymTab, tree []*Node, asm asmWriter) error {
 	return asm.flush() // Write final values
 }
 
-func genFunc(asm asmWriter, n *Node, fn *function, gt *GcTypes, alloc *Symbol) {
+func genFunc(asm asmWriter, n *Node, fn *function, gt *GcTypes, alloc *Symbol) error {
 
 	// Ensure we only generate code for "our" functions
 	if !fn.Type.Is(External) {
@@ -164,6 +166,11 @@ func genFunc(asm asmWriter, n *Node, fn *function, gt *GcTypes, alloc *Symbol) {
 			}
 		})
 
+		// Stack slots are addressed by a 16-bit displacement
+		if max := -math.MinInt16 / ptrSize; temps > max {
+			return fmt.Errorf("too many variables in function '%v', maximum is %v", fn.AstName, max)
+		}
+
 		// Generate standard entry sequence
 		fn.incSp(genFnEntry(asm, fn.AsmName(), temps))
 
@@ -205,6 +212,7 @@ func genFunc(asm asmWriter, n *Node, fn *function, gt *GcTypes, alloc *Symbol) {
 			asm.gcMap(name, off)
 		}
 	}
+	return nil
 }
 
 func genTypeInfoTable(asm asmWriter, gt *GcTypes) {
-- 
2.43.0


From 857ab5879dc224a20e02f164a9fc15694ff03b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:37 +0000
Subject: [PATCH 43/45] fix: structs whose names start with a letter outside
 ASCII could not be constructed

---
 semantic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/semantic.go b/semantic.go
index bb4a277..b53dfba 100644
--- a/semantic.go
+++ b/semantic.go
@@ -6,6 +6,7 @@ import (
 	"github.com/g-dx/clarac/lex"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 //
@@ -638,7 +639,8 @@ func generateStructConstructors(errs *[]error, root *Node, n *Node) {
 func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 
 	name := n.token.Val
-	firstLetter := name[:1]
+	_, width := utf8.DecodeRuneInString(name)
+	firstLetter := name[:width]
 
 	// Check struct begins with lowercase
 	if strings.ToUpper(firstLetter) == firstLetter {
@@ -646,7 +648,7 @@ func generateStructConstructor(root *Node, n *Node) (*Symbol, error) {
 	}
 
 	// Create name
-	constructorName := strings.ToUpper(firstLetter) + name[1:]
+	constructorName := strings.ToUpper(firstLetter) + name[width:]
 
 	// Ensure there are no other function definitions with this name
 	if _, found := root.symtab.Resolve(constructorName); found {
-- 
2.43.0


From 9939e0274bdca03cb0e87b5c25fa61a0c6385664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:44 +0000
Subject: [PATCH 44/45] fix: an invalid pattern for -ast crashed the compiler
 instead of being reported

---
 main.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index 7977819..5bd23f0 100644
--- a/main.go
+++ b/main.go
@@ -43,7 +43,13 @@ func main() {
 	claraLib := glob(fmt.Sprintf("%v/lib/*.clara", *installPath)) // NOTE: Does NOT traverse all directories!
 	cLib := glob(fmt.Sprintf("%v/init/*.c", *installPath)) // NOTE: Does NOT traverse all directories!
 
-	options := options{ showLex: *showLex, astMatcher: buildAstMatcher(*showAst), showTypes: *showTypes, showAsm: *showAsm, showProg: *showProg }
+	astMatcher, err := buildAstMatcher(*showAst)
+	if err != nil {
+		fmt.Println(err)
+		os.Exit(1)
+	}
+
+	options := options{ showLex: *showLex, astMatcher: astMatcher, showTypes: *showTypes, showAsm: *showAsm, showProg: *showProg }
 	_, errs := Compile(options, claraLib, *progPath, cLib, *outPath, os.Stdout)
 	if len(errs) > 0 {
 		fmt.Println("\nErrors")
@@ -242,15 +248,18 @@ func glob(pattern string) []string {
 	return paths
 }
 
-func buildAstMatcher(s string) func(*Node) bool {
+func buildAstMatcher(s string) (func(*Node) bool, error) {
 	if len(s) == 0 {
-		return nil
+		return nil, nil
+	}
+	regex, err := regexp.Compile(strings.TrimSpace(s))
+	if err != nil {
+		return nil, err
 	}
-	regex := regexp.MustCompile(strings.TrimSpace(s))
 	return func(n *Node) bool {
 		if n.token != nil && regex.MatchString(n.token.Val) {
 			return true
 		}
 		return false
-	}
+	}, nil
 }
\ No newline at end of file
-- 
2.43.0


From b69b5b9861708d4e45b69d4a4098c082fe601a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:01 +0000
Subject: [PATCH 45/45] fix: an install directory with special characters in
 its path crashed the compiler or was not found

---
 main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 5bd23f0..6678bd0 100644
--- a/main.go
+++ b/main.go
@@ -40,8 +40,8 @@ func main() {
 	flag.Parse()
 
 	// Gather standard lib & C files
-	claraLib := glob(fmt.Sprintf("%v/lib/*.clara", *installPath)) // NOTE: Does NOT traverse all directories!
-	cLib := glob(fmt.Sprintf("%v/init/*.c", *installPath)) // NOTE: Does NOT traverse all directories!
+	claraLib := glob(fmt.Sprintf("%v/lib/*.clara", escapeGlob(*installPath))) // NOTE: Does NOT traverse all directories!
+	cLib := glob(fmt.Sprintf("%v/init/*.c", escapeGlob(*installPath))) // NOTE: Does NOT traverse all directories!
 
 	astMatcher, err := buildAstMatcher(*showAst)
 	if err != nil {
@@ -248,6 +248,14 @@ func glob(pattern string) []string {
 	return paths
 }
 
+// escapeGlob quotes a path so that it is matched literally when used in a pattern
+func escapeGlob(path string) string {
+	if runtime.GOOS == "windows" {
+		return path // Escaping is not supported
+	}
+	return strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[").Replace(path)
+}
+
 func buildAstMatcher(s string) (func(*Node) bool, error) {
 	if len(s) == 0 {
 		return nil, nil
-- 
2.43.0

