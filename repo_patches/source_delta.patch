From 9e285f6919ed618891cd4dfa508f715b91a6d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 01/12] fix: f.Format no longer writes behind the caller's
 argument slice

append(args, "") stored the extra argument into the spare capacity of a slice
passed with args..., which may be shared memory; append to a copy.
---
 f/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/f/format.go b/f/format.go
index 6394180..3b2f229 100644
--- a/f/format.go
+++ b/f/format.go
@@ -17,7 +17,7 @@ func Format(format string, args ...any) string {
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
+	args = append(args[:length:length], "")
 	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
 	return fmt.Sprintf(format, args...)
 }
-- 
2.43.0


From b300264ce97e24fd13394be6a8253175ac73db23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 02/12] fix: plural lookup no longer panics when the rule
 selects one past the last form

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..0c21a7b 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From 508715e661c443a4a0c39bb4a6872d20ee0768e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 03/12] fix: ReadPot reports malformed input instead of
 dereferencing a nil entry

---
 translator/po.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..0768864 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,7 +33,7 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
-		if pot || entry.isValid() {
+		if entry != nil && pot || entry.isValid() {
 			file.AddEntry(entry)
 		}
 		if errors.Is(err, io.EOF) {
-- 
2.43.0


From 82fe6b77c4e420fedd9bcb3f4ac5e207c723ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 04/12] fix: comments or blank lines at the end of a POT file
 no longer replace its header

ReadPot stored the empty entry read at EOF under the header key.
---
 translator/po.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index 0768864..383cc0a 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,6 +33,9 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
+		if err == errNoEntry {
+			return file, nil
+		}
 		if entry != nil && pot || entry.isValid() {
 			file.AddEntry(entry)
 		}
@@ -72,7 +75,11 @@ func (f *File) SaveAsPo(w io.Writer) error {
 	return err
 }
 
-var errInvalidEntry = fmt.Errorf("invalid entry")
+var (
+	errInvalidEntry = fmt.Errorf("invalid entry")
+	// errNoEntry 文件剩余部分只有空行或注释，没有条目
+	errNoEntry = fmt.Errorf("no more entry")
+)
 
 // readEntry 读取翻译条目
 func readEntry(r *reader) (*Entry, error) {
@@ -101,6 +108,9 @@ func readEntry(r *reader) (*Entry, error) {
 		line, err := r.nextLine()
 		if err != nil {
 			if errors.Is(err, io.EOF) {
+				if previousLineState == "" {
+					return entry, errNoEntry
+				}
 				return entry, err
 			}
 			return nil, errors.WithSecondaryError(errInvalidEntry,
-- 
2.43.0


From 7e74c899b9b81edc27d95ae792586f5b5c942e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 05/12] fix: plural operators !, &&, || and ?: treat every
 nonzero value as true

---
 plurals/exp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..378d68f 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,7 +112,7 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
+		if num != _FALSE {
 			s.stack.Push(_FALSE)
 		} else {
 			s.stack.Push(_TRUE)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From d1314e0d177d8f0307e414dbdc6e10f9dfcea97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 06/12] fix: Translations.MostMatchLocale uses its receiver,
 not the global translations

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From b1e121498f5cfaa83c504c8c30c3b47b7873e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 07/12] fix: adding a header entry refreshes the cached headers
 and plural rule

---
 translator/file.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/translator/file.go b/translator/file.go
index 0c21a7b..026b1b0 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -85,6 +85,8 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
+		file.headers = nil
+		file.plural = nil
 		file.initHeader()
 		file.initPlural()
 	}
-- 
2.43.0


From 46b9e2a4634d7c176793e7eb1f21de9a5a2a3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 08/12] fix: SortedEntry orders entries with equal sort keys by
 their key

Their order followed the map iteration, so saving was not deterministic.
---
 translator/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 026b1b0..e939c3f 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -73,7 +73,11 @@ func (file *File) SortedEntry() (entries []*Entry) {
 	sort.Slice(entries, func(i, j int) bool {
 		left := entries[i]
 		right := entries[j]
-		return left.getSortKey() < right.getSortKey()
+		leftKey, rightKey := left.getSortKey(), right.getSortKey()
+		if leftKey == rightKey {
+			return left.Key() < right.Key()
+		}
+		return leftKey < rightKey
 	})
 	return
 }
-- 
2.43.0


From cba07fef854e573df7f13ea22f9f2d4d6b57b20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 09/12] fix: ReadMo checks string lengths against the file
 before allocating

A 36-byte file could make it allocate 4 GiB.
---
 translator/mo.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..6124e7f 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -157,6 +157,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
 		}
+		if int64(msgIDMeta[i].Length) > int64(r.Len()) {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("msg_id[%d] exceeds the file: length %d", i, msgIDMeta[i].Length))
+		}
 		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
 		if err := binary.Read(r, bo, &id); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
@@ -168,6 +172,10 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
 		}
+		if int64(msgStrMeta[i].Length) > int64(r.Len()) {
+			return nil, errors.WithSecondaryError(errReadMo,
+				errors.Errorf("msg_str[%d] exceeds the file: length %d", i, msgStrMeta[i].Length))
+		}
 		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
 		if err := binary.Read(r, bo, &str); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
-- 
2.43.0


From 17ce8bd7776113b14d8026e98490339de484d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 10/12] fix: xtemplate examines the pipeline a field chain
 starts with

{{ (T "x").Field }} was not extracted.
---
 cmd/xtemplate/internal/run.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..bae454b 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -218,6 +218,9 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				if pipe, ok := arg.Node.(*parse.PipeNode); ok {
+					resolvePipe(filename, line, ctx, pipe) // 递归
+				}
 				if len(arg.Field) == 0 {
 					continue
 				}
-- 
2.43.0


From 8b6605576f73bc38881a778e9080ae05d827c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 11/12] fix: xtemplate checks exactly the argument positions a
 keyword designates

Keywords whose positions are not a prefix (T:2, X:2c,3) never extracted anything,
and unrelated leading arguments had to be literals.
---
 cmd/xtemplate/internal/run.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index bae454b..1050a45 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -253,29 +253,24 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
-			lastIndex := argCount + nameIndex
-			if lastIndex >= argLength {
-				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
-				continue
-			}
 			argOK := true
 			m := make(map[int]string)
-			for i := nameIndex + 1; i <= lastIndex; i++ {
-				arg := args[i]
-				text, ok := stringLiteral(arg)
+			for _, pos := range []int{kw.MsgCtxt, kw.MsgID, kw.MsgID2} {
+				if pos <= 0 { // 未指定该参数
+					continue
+				}
+				if pos >= argLength-nameIndex {
+					ctx.debugPrint("  >  >  >  ID=%v too few args", name)
+					argOK = false
+					break
+				}
+				text, ok := stringLiteral(args[nameIndex+pos])
 				if !ok {
-					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, i)
+					ctx.debugPrint("  >  >  >  ID=%v args[%d] is not string node", name, nameIndex+pos)
 					argOK = false
 					break
 				}
-				m[i-nameIndex] = text
+				m[pos] = text
 			}
 			if !argOK {
 				continue
-- 
2.43.0


From ba453e6336713475812bcd4c079b8deba462c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 12/12] fix: xtemplate: an empty message id without context no
 longer replaces the POT header

---
 cmd/xtemplate/internal/param.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..b0c42d5 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -79,6 +79,9 @@ func newCtx(param *Param) (*Context, error) {
 func (ctx *Context) Add(entry *translator.Entry) error {
 	plural := entry.IsPlural
 	key := entry.Key()
+	if key == new(translator.Entry).Key() { // 空 msgid 保留给文件头
+		return errors.Errorf(t.T("empty msgid is reserved for the header.\nLine    =%v"), entry.MsgCmts)
+	}
 	pre, ok := ctx.entries[key]
 	if ok {
 		if pre.IsPlural != plural {
-- 
2.43.0

