From 37cad44b610bcc618a66e9687d79ecb4b6e55b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 01/33] fix: keep an unlimited chain length unlimited

Chain.Append added the length of an item following a star to -1, so a list
alternative such as {*a,*b} got a bogus finite maximum length and the glob
rejected paths it must match.
---
 pkg/items/chain.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/items/chain.go b/pkg/items/chain.go
index b727ea7..76badf3 100644
--- a/pkg/items/chain.go
+++ b/pkg/items/chain.go
@@ -22,11 +22,7 @@ func (item *Chain) Equal(a Item) bool {
 
 func (c *Chain) Append(item Item) {
 	c.MinSize += item.MinLen()
-	if l := item.MaxLen(); l == -1 {
-		c.MaxSize = -1
-	} else {
-		c.MaxSize += l
-	}
+	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())
 	c.Items = AppendItem(c.Items, item)
 }
 
-- 
2.43.0


From d247a8f5de86957d2f8d481e94fbfb2e5b13329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 02/33] fix: chain matching after a star: forwarded lists,
 nearest list value, fixed-length stars

A list that reports FindForwarded inside matchStarItems panicked
(glob '*{?b,ba}a'), the scan for list values advanced past the nearest
occurrence, and a Star item reached after another star ignored the runes
it requires.
---
 pkg/items/items.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c4894fa..677e644 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -343,7 +343,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
 			sub := s[length:]
 			if matched, abortGready = matchItems(sub, items[1:], nextItems); matched || abortGready {
 				return
@@ -385,7 +385,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 						// TODO: skip on next scan ?
 						continue
 					}
-					if offset == -1 || offset < offsetN {
+					if offset == -1 || offset > offsetN {
 						offset = offsetN
 					}
 					s := s[offsetN+length:]
@@ -458,22 +458,17 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			return
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
-			if len(items) == 1 {
-				if nextItems == nil || nextItems.IsEmpty() {
-					matched = true
-					return
-				} else {
-					items, nextItems := nextItems.Next()
-					if matched, _ = matchStarItems(s, items, nextItems); matched {
-						return
-					}
-				}
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
+			if len(items) == 1 && (nextItems == nil || nextItems.IsEmpty()) {
+				matched = true
+				return
 			}
-			items = items[1:]
-			// continue
+			return matchStarItems(s, items[1:], nextItems)
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
-- 
2.43.0


From 5bae5f7432cfc66ec22b4d6675d1b3c18ec17c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 03/33] fix: tree matching: terminal nodes with children, lists
 after a star, star advance

Terminate was ignored on nodes having childs when the node ends in a star
or is reached by a star scan, list values after a star were scanned from
the wrong offset (endless loop or missed matches), FindForwarded
panicked, and the FindStar branch in matchItemsInTree never returned.
---
 pkg/items/tree.go | 101 ++++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 57 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63a17be..5b8ef8f 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -155,17 +155,13 @@ func (item *TreeItem) match(s string, store Store) (matched int, abort bool) {
 	case FindForwarded:
 		panic("forwarded match")
 	case FindStar:
-		if len(item.Childs) == 0 {
-			if item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			}
-			return
-		} else {
-			for i := 0; i < len(item.Childs); i++ {
-				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-					matched += n
-				}
+		if item.Terminate {
+			store.Store(item.Query, item.Index)
+			matched++
+		}
+		for i := 0; i < len(item.Childs); i++ {
+			if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
+				matched += n
 			}
 		}
 	default:
@@ -201,17 +197,16 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
 			s := s[length:]
 
-			if s == "" && len(item.Childs) == 0 && item.Terminate {
+			if s == "" && item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-			} else {
-				for i := 0; i < len(item.Childs); i++ {
-					if n, _ := item.Childs[i].match(s, store); n > 0 {
-						matched += n
-					}
+			}
+			for i := 0; i < len(item.Childs); i++ {
+				if n, _ := item.Childs[i].match(s, store); n > 0 {
+					matched += n
 				}
 			}
 		case FindList:
@@ -231,47 +226,33 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 				}
 			}
 
-			for {
-				var offsetN int
-				offset := -1
-				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						continue
-					}
-					if offset == -1 || offset < offsetN {
-						offset = offsetN
+			for i := 0; i < list.Len(); i++ {
+				s := s
+				for {
+					if offset, length = list.FindN(s, i); offset == -1 {
+						break
 					}
-					s := s[offsetN+length:]
+					next := s[offset+length:]
 
-					if s == "" {
-						if item.Terminate {
-							store.Store(item.Query, item.Index)
-							matched++
-						}
+					if next == "" && item.Terminate {
+						store.Store(item.Query, item.Index)
+						matched++
 					}
 					for i := 0; i < len(item.Childs); i++ {
-						if n, _ := item.Childs[i].match(s, store); n > 0 {
+						if n, _ := item.Childs[i].match(next, store); n > 0 {
 							matched += n
 						}
 					}
+					// retry scan after one rune from the found value
+					s = s[offset:]
+					if _, length = utf8.DecodeRuneInString(s); length < 1 {
+						break
+					}
+					s = s[length:]
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
-				if _, length = utf8.DecodeRuneInString(s); length < 1 {
-					break
-				}
-				s = s[length:]
 			}
-			if offset == -1 {
-				break
-			}
-			s = s[offset:]
-			if _, length = utf8.DecodeRuneInString(s); length < 1 {
-				break
-			}
-			s = s[length:]
+
+			return
 
 		case FindGroup:
 			group := item.Item.(*Group)
@@ -305,13 +286,15 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
-			if len(item.Childs) == 0 && item.Terminate {
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
+			if item.Terminate {
 				store.Store(item.Query, item.Index)
 				matched++
-				return
 			}
 			for i := 0; i < len(item.Childs); i++ {
 				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
@@ -448,6 +431,7 @@ func (item *TreeItem) matchItemsInTree(s string, items []Item, store Store) (mat
 			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
 				matched += n
 			}
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
@@ -500,7 +484,7 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 		s = s[offset:]
 
 		switch flag {
-		case FindDone:
+		case FindDone, FindForwarded:
 			sub := s[length:]
 			if n, _ := item.matchItemsInTree(sub, items[1:], store); n > 0 {
 				matched += n
@@ -580,9 +564,12 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
 		case FindStar:
+			if length == -1 {
+				abortGready = true
+				return
+			}
+			s = s[length:]
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
-- 
2.43.0


From a002358bd6fadb0cd2e2e9d46b8d6f3280af419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 04/33] fix: GlobTree registers globs without wildcards

A plain string was attached to the root item instead of a child, so it
was never matched.
---
 glob/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/glob/tree.go b/glob/tree.go
index a1c347b..5afd57c 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -28,8 +28,13 @@ func addGlob(rootTree *items.TreeItem, gg *Glob, index int) *items.TreeItem {
 		treeItem = newItem
 	}
 
-	if gg.Prefix != "" {
-		node := items.NewString(gg.Prefix)
+	prefix := gg.Prefix
+	if len(gg.Items) == 0 {
+		// plain string
+		prefix = gg.Node
+	}
+	if prefix != "" || len(gg.Items) == 0 {
+		node := items.NewString(prefix)
 		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
 		if newItem == nil {
 			if treeItem.Childs == nil {
-- 
2.43.0


From dfa60dafe173d97daeca5dec131e1bdb1e84942a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 05/33] fix: single-value list with a wildcard is not a literal

{a*} or {?} was parsed as the literal string.
---
 pkg/items/group.go      | 7 +++++++
 pkg/items/stringlist.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index 17c7bda..bb04e2b 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -117,6 +117,13 @@ func NewGroup(vals []string) (item Item, err error) {
 	if len(items) == 0 {
 		return nil, nil
 	}
+	if len(items) == 1 {
+		if v, ok := items[0].(*Chain); !ok {
+			return items[0], nil
+		} else if len(v.Items) == 0 {
+			return nil, nil
+		}
+	}
 	minLen := items[0].MinLen()
 	maxLen := items[0].MaxLen()
 	for i := 1; i < len(items); i++ {
diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 374140c..c111fd8 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -226,6 +226,9 @@ func NewItemList(vals []string) (item Item, err error) {
 		if vals[0] == "" {
 			return nil, nil
 		}
+		if HasWildcard(vals[0]) {
+			return NewGroup(vals)
+		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
 		if n == len(vals[0]) {
-- 
2.43.0


From 5457c35cf8166b5bcd7fb73fe37a49f75895a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 06/33] fix: a star at the end of a chain matches any rest

An alternative without items ({[],b}) tried after a star matched only the
empty string.
---
 pkg/items/items.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index 677e644..3376e01 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -312,8 +312,8 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 	)
 	if len(items) == 0 {
 		if nextItems == nil || nextItems.IsEmpty() {
-			matched = s == ""
-			abortGready = true
+			// star at the end of items
+			matched = true
 			return
 		} else {
 			items, nextItems = nextItems.Next()
-- 
2.43.0


From b01dd6ae2ad30dd77ebf08d67243acdef38c7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 07/33] fix: normalize a list with a ** value like one with *

---
 pkg/items/group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index bb04e2b..72dd6bb 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -88,7 +88,7 @@ func NewGroup(vals []string) (item Item, err error) {
 		if HasWildcard(vals[i]) {
 			v := vals[i]
 
-			if v == "*" {
+			if strings.Trim(v, "*") == "" {
 				return Star(0), nil
 			} else if v == "?" {
 				items = append(items, Any(1))
-- 
2.43.0


From dc72ea68669cf113ad2bac9ccc1f4597075e3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 08/33] fix: [*] matches only the star symbol

---
 glob/glob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glob/glob.go b/glob/glob.go
index 417d2c9..8be0c8c 100644
--- a/glob/glob.go
+++ b/glob/glob.go
@@ -41,7 +41,7 @@ func (g *Glob) Raw() string {
 }
 
 func (g *Glob) Match(s string) (matched bool) {
-	if g.Node == "*" {
+	if g.Node == "*" && len(g.Items) > 0 {
 		matched = true
 		return
 	}
-- 
2.43.0


From 7d132cb58aaae793851c3ad39d022d1cd1b0c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 09/33] fix: gglob length check does not count dots

MinLen/MaxLen are sums over the parts, so a.b did not match a.b.
---
 gglob/gglob.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 6e5b4cc..9714182 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -27,10 +27,12 @@ func (g *GGlob) Match(path string) (matched bool) {
 		return
 	}
 
-	if len(path) < g.MinLen {
+	// dots are not counted in MinLen/MaxLen
+	length := len(path) - partsCount + 1
+	if length < g.MinLen {
 		return
 	}
-	if g.MaxLen > 0 && len(path) > g.MaxLen {
+	if g.MaxLen > 0 && length > g.MaxLen {
 		return
 	}
 
@@ -58,6 +60,8 @@ func (g *GGlob) MatchByParts(parts []string, length int) (matched bool) {
 		return
 	}
 	if length > 0 {
+		// dots are not counted in MinLen/MaxLen
+		length -= len(parts) - 1
 		if length < g.MinLen {
 			return
 		}
-- 
2.43.0


From c4df4b019ffea2fe0482e5049427c109306dcf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 10/33] fix: gglob with an empty last part is rejected

a.. was accepted with one part less than its level.
---
 gglob/gglob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 9714182..2ec5f7b 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -107,6 +107,11 @@ func Parse(s string) (gg *GGlob, err error) {
 		gg.MinLen += g.MinLen
 		gg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)
 	}
+	if len(gg.Parts) != level {
+		// last part is empty
+		err = items.ErrNodeEmpty{s}
+		return
+	}
 
 	var buf strings.Builder
 	buf.Grow(len(s))
-- 
2.43.0


From faaf5fd76ca66291a52390fe84f606b55c64dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 11/33] fix: PathSplitB reports an empty last part

---
 gglob/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/utils.go b/gglob/utils.go
index 8578b96..c922ca5 100644
--- a/gglob/utils.go
+++ b/gglob/utils.go
@@ -41,8 +41,8 @@ func PathSplitB(path string, parts *[]string) (ok bool) {
 	}
 
 	var part string
-	for path != "" {
-		part, path, _ = strings.Cut(path, ".")
+	for next := true; next; {
+		part, path, next = strings.Cut(path, ".")
 		if part == "" {
 			return
 		}
-- 
2.43.0


From 97e12d01a87ebcc039e3db5fa2ffe70598f7ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 12/33] fix: AddGlob and AddTerms register the normalized text

The duplicate index lookup overwrote it with an empty string.
---
 gglob/gtree.go | 3 ++-
 glob/tree.go   | 3 ++-
 gtags/tree.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 4db72ae..4458889 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -222,7 +222,8 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if exist, ok := gtree.GlobsIndex[index]; ok {
+		normalized = exist
 		err = glob.ErrIndexDup
 		return
 	}
diff --git a/glob/tree.go b/glob/tree.go
index 5afd57c..1cfcaed 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -149,7 +149,8 @@ func (gtree *GlobTree) AddGlob(g *Glob, index int) (normalized string, n int, er
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if exist, ok := gtree.GlobsIndex[index]; ok {
+		normalized = exist
 		err = ErrIndexDup
 		return
 	}
diff --git a/gtags/tree.go b/gtags/tree.go
index fbc765f..24519a7 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -95,7 +95,8 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 		err = glob.ErrGlobExist
 		return
 	}
-	if normalized, ok = gtree.QueryIndex[index]; ok {
+	if exist, ok := gtree.QueryIndex[index]; ok {
+		normalized = exist
 		err = glob.ErrIndexDup
 		return
 	}
-- 
2.43.0


From d8ce2e465b8333403b08388c2ac4290045c8dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 13/33] fix: AddTerms terminates the added terms

---
 gtags/tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index 24519a7..66cb122 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -106,7 +106,10 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 			Terminate: true, Index: index, Query: normalized,
 		}
 	} else {
-		gtree.Root.Parse(terms, normalized, index)
+		lastItem := gtree.Root.Parse(terms, normalized, index)
+		lastItem.Terminate = true
+		lastItem.Query = normalized
+		lastItem.Index = index
 	}
 
 	gtree.Queries[normalized] = index
-- 
2.43.0


From e30f84192f1b4d4386fbc3cb720614bee4ea2ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 14/33] fix: reject a seriesByTag term with a blank key

Adding it to the tree panicked.
---
 gtags/tagged_term.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bd5bd34..a3dab18 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -257,6 +257,9 @@ func ParseTaggedConditions(conditions []string) (terms TaggedTermList, err error
 			return nil, ErrExprInvalid{s}
 		}
 		terms[i].Key = strings.TrimSpace(s[:pos])
+		if terms[i].Key == "" {
+			return nil, ErrExprInvalid{s}
+		}
 		s = s[pos:]
 		if strings.HasPrefix(s, "=") {
 			if strings.HasPrefix(s, "=~") {
-- 
2.43.0


From a2b81a2f93d06afe54b7deb212e3ff6c5627b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 15/33] fix: MatchByTags keeps its position after a missing key

A key that does not exist moved the scan to the end, so all following
terms failed.
---
 gtags/tagged_term.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index a3dab18..4ef3914 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -151,18 +151,20 @@ LOOP:
 		}
 		if term.Key != tags[i].Key {
 			// scan for tag
-			for ; i < len(tags); i++ {
-				if tags[i].Key == term.Key {
+			next := i
+			for ; next < len(tags); next++ {
+				if tags[next].Key == term.Key {
 					break
 				}
 			}
-			if len(tags) == i {
+			if len(tags) == next {
 				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
 					// != and ~=! can be skiped and key can not exist
 					continue LOOP
 				}
 				return false
 			}
+			i = next
 		}
 		if !term.Match(tags[i].Value) {
 			return false
-- 
2.43.0


From ad63c0c565c6971893eb82095280a52e22d7985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 16/33] fix: tags tree matches and counts the query without
 terms

---
 gtags/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index 66cb122..c432929 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -121,12 +121,17 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 }
 
 func (gtree *GTagsTree) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	return gtree.Root.MatchByTagsMap(tags, store)
+	if gtree.Terminate {
+		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
+	}
+	return matched + gtree.Root.MatchByTagsMap(tags, store)
 }
 
 func (gtree *GTagsTree) MatchByTags(tags []Tag, store items.Store) (matched int) {
 	if gtree.Terminate {
 		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
 	}
-	return gtree.Root.MatchByTags(tags, store)
+	return matched + gtree.Root.MatchByTags(tags, store)
 }
-- 
2.43.0


From d46ba2e62ee214ad1635884d6291fdf781f7ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 17/33] fix: tags tree checks negative terms against empty tags

---
 gtags/items.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/gtags/items.go b/gtags/items.go
index 4bb5e3c..4ebfbe3 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -253,10 +253,6 @@ func (item *TaggedItem) Parse(terms TaggedTermList, query string, index int) (la
 }
 
 func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	for i := 0; i < len(item.Items); i++ {
 		v, ok := tags[item.Items[i].Key]
 		if ok {
@@ -303,10 +299,6 @@ func (item *TaggedItem) MatchByTagsMap(tags map[string]string, store items.Store
 }
 
 func (item *TaggedItem) MatchByTags(tags []Tag, store items.Store) (matched int) {
-	if len(tags) == 0 {
-		return
-	}
-
 	matchPos := 0
 
 	for i := 0; i < len(item.Items); i++ {
-- 
2.43.0


From 121a27fedf0f8d19fcfb8513328b4d63ca2a893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 18/33] fix: keep __name__ first in the tags tree

The first other key was inserted before it, so a following __name__ term
added a second __name__ item.
---
 gtags/items.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gtags/items.go b/gtags/items.go
index 4ebfbe3..8c190b0 100644
--- a/gtags/items.go
+++ b/gtags/items.go
@@ -77,6 +77,10 @@ func (t *TaggedItem) findOrAppend(key string) int {
 		}
 	}
 
+	if high < low {
+		// only __name__ key, insert after it
+		high = low
+	}
 	if high == len(t.Items) {
 		t.Items = append(t.Items, TaggedItems{Key: key})
 		return high
-- 
2.43.0


From 5292b15090e3769ab9e413a8cac992f41657d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 19/33] fix: escapeTo keeps the last symbol

PathTo and QueryTo dropped it after an escaped one.
---
 pkg/escape/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/escape/url.go b/pkg/escape/url.go
index bedba35..bb53e93 100644
--- a/pkg/escape/url.go
+++ b/pkg/escape/url.go
@@ -182,7 +182,7 @@ func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
 	if pos == 0 {
 		sb.WriteString(s)
 		return
-	} else if pos < len(s)-1 {
+	} else if pos < len(s) {
 		sb.WriteString(s[pos:])
 	}
 }
-- 
2.43.0


From 1070a737c8f5f1aa962231df82ea75ae4d7f37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 20/33] fix: RunesRanges.IndexByte loops forever on an ASCII
 symbol

---
 pkg/utils/runesranges.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index aa9a15a..fa30240 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -270,6 +270,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			if rs.ASCII.Contains(b[i]) {
 				return i, rune(b[i]), 1
 			}
+			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
 			if c == utf8.RuneError {
-- 
2.43.0


From dbbdac57b1750e65f002374a18fa98aaec6e4e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 21/33] fix: ASCIISet string forms include the last ASCII
 symbol

---
 pkg/utils/asciiset.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 6e9ef9b..bb33148 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -34,6 +34,10 @@ func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 		}
 		if start != 0 {
 			buf.WriteByte(start)
+			if start < 127 {
+				buf.WriteByte('-')
+				buf.WriteByte(127)
+			}
 		}
 	}
 }
@@ -78,7 +82,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i < 127; i++ {
+	for i = 1; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From fc5656c3c298dddafa17e81c936c0df179bd8b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 22/33] fix: NewAllStore starts without a minimum index

---
 pkg/items/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/store.go b/pkg/items/store.go
index d807e3d..20a732d 100644
--- a/pkg/items/store.go
+++ b/pkg/items/store.go
@@ -81,7 +81,7 @@ type AllStore struct {
 }
 
 func NewAllStore() *AllStore {
-	return &AllStore{}
+	return &AllStore{Min: MinStore{-1}}
 }
 
 func (s *AllStore) Init() {
-- 
2.43.0


From 6b7e2091f91bf321ecb4f877b8f0271590413529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 23/33] fix: EndsWith and Byte.MatchLast return the offset of
 the last symbol

---
 pkg/items/byte.go        | 4 ++--
 pkg/utils/runesranges.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/items/byte.go b/pkg/items/byte.go
index 2367cd6..dc43739 100644
--- a/pkg/items/byte.go
+++ b/pkg/items/byte.go
@@ -72,8 +72,8 @@ func (item Byte) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Byte) MatchLast(s string) (offset int, support FindFlag) {
-	n := len(s) - 1
-	if c := s[n]; c != byte(item) {
+	offset = len(s) - 1
+	if offset >= 0 && s[offset] != byte(item) {
 		offset = -1
 	}
 	return
diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index fa30240..4d91980 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -357,7 +357,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	// detect ASCII
 	if c < utf8.RuneSelf {
 		if rs.ASCII.Contains(byte(c)) {
-			return c, 1
+			return c, len(s) - n
 		} else {
 			return utf8.RuneError, -1
 		}
-- 
2.43.0


From ce0e10228e709499c722ba833e049d90a1ebf160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 24/33] fix: RunesRanges index continues after an invalid
 symbol

---
 pkg/utils/runesranges.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 4d91980..b7cea8d 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -273,10 +273,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
@@ -305,10 +302,7 @@ func (rs *RunesRanges) Index(s string) (pos int, c rune, n int) {
 			i++
 		} else {
 			c, n = utf8.DecodeRuneInString(s[i:])
-			if c == utf8.RuneError {
-				return -1, utf8.RuneError, 0
-			}
-			if rs.ContainsUnicode(c) {
+			if c != utf8.RuneError && rs.ContainsUnicode(c) {
 				pos = i
 				return
 			}
-- 
2.43.0


From ab2ba89af907c629ca825a48ea3a4c706cdeb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 25/33] fix: Expand does not preallocate an overflowed results
 count

Many lists panicked with makeslice even with a small max.
---
 expand/expand.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 755c61f..6b52db2 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -8,6 +8,8 @@ import (
 	"github.com/msaf1980/go-matcher/pkg/utils"
 )
 
+const maxPrealloc = 1024
+
 var (
 	ErrNotClosed = errors.New("expression not closed")
 
@@ -88,6 +90,11 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 	count := 1
 	for i := 0; i < len(e.exps); i++ {
 		count *= e.exps[i].count()
+		if count > maxPrealloc {
+			// it's only a hint, max and depth can restrict results
+			count = maxPrealloc
+			break
+		}
 		if e.exps[i].typ == expWildcard {
 			break
 		}
-- 
2.43.0


From 231d8dabc996c9edb7ccdd2478ac2e814a7de4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 26/33] fix: a runes range which can't be expanded is kept with
 its brackets

---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index aceba7d..6203db9 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -143,7 +143,7 @@ func getExpression(in string) Expression {
 			// return rune{in}
 			rs, ok := runesRangeExpand(in)
 			if !ok {
-				return Expression{typ: expWildcard, body: in}
+				return Expression{typ: expWildcard, body: orig}
 			}
 			if len(rs) == 0 {
 				return Expression{body: ""}
-- 
2.43.0


From 129dee72a61194056f3afde6731e754220855197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:21 +0000
Subject: [PATCH 27/33] fix: other values of a list with a star value are
 checked

---
 pkg/items/group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index 72dd6bb..65f7f25 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -84,12 +84,14 @@ func (item *Group) IsOptional() bool {
 
 func NewGroup(vals []string) (item Item, err error) {
 	items := make([]Item, 0, len(vals))
+	hasStar := false
 	for i := 0; i < len(vals); i++ {
 		if HasWildcard(vals[i]) {
 			v := vals[i]
 
 			if strings.Trim(v, "*") == "" {
-				return Star(0), nil
+				// any value matched, but other values must be correct
+				hasStar = true
 			} else if v == "?" {
 				items = append(items, Any(1))
 			} else {
@@ -114,6 +116,9 @@ func NewGroup(vals []string) (item Item, err error) {
 			items = append(items, NewString(vals[i]))
 		}
 	}
+	if hasStar {
+		return Star(0), nil
+	}
 	if len(items) == 0 {
 		return nil, nil
 	}
-- 
2.43.0


From 2d9a558e3f1d39df784d375291e63421d54d21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 28/33] fix: an invalid symbol of the glob matches itself

---
 pkg/items/stringlist.go | 2 +-
 pkg/items/wildcard.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index c111fd8..337cb11 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -231,7 +231,7 @@ func NewItemList(vals []string) (item Item, err error) {
 		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
-		if n == len(vals[0]) {
+		if n == len(vals[0]) && c != utf8.RuneError {
 			if c <= 127 {
 				return Byte(c), nil
 			}
diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index ced7e7f..7e59322 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -77,7 +77,7 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 		v, next := utils.SplitString(s, end)
 
 		c, n := utf8.DecodeRuneInString(v)
-		if n == len(v) {
+		if n == len(v) && c != utf8.RuneError {
 			if c <= 127 {
 				return Byte(c), next, nil
 			}
-- 
2.43.0


From 2f8920a5f6cdcb86bcaf185a50e519400fcf28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 29/33] fix: Expand does not panic on an expression of empty
 lists

---
 expand/expand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expand.go b/expand/expand.go
index 6b52db2..4de9d71 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -248,7 +248,7 @@ func ParseExpr(in string) (e *Expressions) {
 	}
 
 	last := len(e.exps) - 1
-	if e.exps[last].typ == expWildcard {
+	if last >= 0 && e.exps[last].typ == expWildcard {
 		s := e.exps[last].body
 		pos := asciiSet.LastIndex(s) + 1
 		if pos < len(s) {
-- 
2.43.0


From d726171bd1bf59b2ea6f9b3cab1130db10fbd351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 30/33] fix: ExpandTry leaves the parsed expression ready to
 expand again

---
 expand/expand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expand/expand.go b/expand/expand.go
index 4de9d71..1e33ce4 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -165,6 +165,7 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 			}
 
 			if try {
+				exps[0].reset()
 				break
 			}
 		}
-- 
2.43.0


From 771d63569f5e1b489e12c22f0a21f6d01eaac33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:26 +0000
Subject: [PATCH 31/33] fix: ranges of symbols of different sizes are not
 merged

---
 pkg/utils/runesranges.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index b7cea8d..8dd0928 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -28,7 +28,9 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 		pos := i
 		if pos < n-1 {
 			for next := i + 1; next < n; next++ {
-				if ranges[pos].First == ranges[next].First || ranges[pos].Last+1 >= ranges[next].First {
+				// neighbour ranges are merged only if theirs symbols have the same size (a range can't be mixed)
+				if ranges[pos].First == ranges[next].First || ranges[pos].Last >= ranges[next].First ||
+					(ranges[pos].Last+1 == ranges[next].First && utf8.RuneLen(ranges[pos].Last) == utf8.RuneLen(ranges[next].First)) {
 					if ranges[pos].Last < ranges[next].Last {
 						// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]
 						ranges[pos].Last = ranges[next].Last
-- 
2.43.0


From 7de97f8e77fc5654b0456da73008a2e22b9703b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:48 +0000
Subject: [PATCH 32/33] fix: list values are ordered and deduplicated after
 their normalization

---
 pkg/items/group.go    | 60 +++++++++++++++++++++++++++++++++++++++++++
 pkg/items/wildcard.go |  3 +++
 2 files changed, 63 insertions(+)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index 65f7f25..6da4943 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -2,6 +2,7 @@ package items
 
 import (
 	"math/rand"
+	"sort"
 	"strings"
 )
 
@@ -82,6 +83,65 @@ func (item *Group) IsOptional() bool {
 	return item.MinSize == 0
 }
 
+// sameValue is like Equal, but not depends on how the literals are stored
+func sameValue(a, b Item) bool {
+	if a.MaxLen() == 0 || b.MaxLen() == 0 {
+		// empty values
+		return a.MaxLen() == b.MaxLen()
+	}
+	switch v := a.(type) {
+	case *Chain:
+		vv, ok := b.(*Chain)
+		if !ok || len(v.Items) != len(vv.Items) {
+			return false
+		}
+		for i := 0; i < len(v.Items); i++ {
+			if !sameValue(v.Items[i], vv.Items[i]) {
+				return false
+			}
+		}
+		return true
+	case *String, Byte, Rune:
+		switch b.(type) {
+		case *String, Byte, Rune:
+			return a.String() == b.String()
+		}
+		return false
+	default:
+		return a.Equal(b)
+	}
+}
+
+// normalize sort values by text and remove duplicates (different values can be normalized to equal)
+func (item *Group) normalize() Item {
+	sort.SliceStable(item.Vals, func(i, j int) bool {
+		return item.Vals[i].String() < item.Vals[j].String()
+	})
+	for _, v := range item.Vals {
+		if v == Star(0) {
+			// any value matched
+			return v
+		}
+	}
+	n := 1
+	for i := 1; i < len(item.Vals); i++ {
+		if !sameValue(item.Vals[i], item.Vals[n-1]) {
+			item.Vals[n] = item.Vals[i]
+			n++
+		}
+	}
+	item.Vals = item.Vals[:n]
+	if n == 1 {
+		if item.MaxSize == 0 {
+			return nil
+		}
+		if _, ok := item.Vals[0].(*Chain); !ok {
+			return item.Vals[0]
+		}
+	}
+	return item
+}
+
 func NewGroup(vals []string) (item Item, err error) {
 	items := make([]Item, 0, len(vals))
 	hasStar := false
diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index 7e59322..fffb71b 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -53,6 +53,9 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			return nil, s, ErrNodeMissmatch{"list", s}
 		}
 		item, err = NewItemList(vals)
+		if group, ok := item.(*Group); ok {
+			item = group.normalize()
+		}
 		return
 	case '*':
 		var next string
-- 
2.43.0


From b02b18fac05fad8f9a8f02d19ff572e3414a2227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 33/33] fix: the count of expanded results does not overflow
 with a big limit

---
 expand/expand.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expand/expand.go b/expand/expand.go
index 1e33ce4..9a65ae6 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -127,9 +127,11 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 		if count <= 0 {
 			count = 1
 		}
-		count *= exps[0].count()
-		if max < count {
+		if n := exps[0].count(); n > max/count {
+			// the product exceeds max (or even overflows)
 			max = 0
+		} else {
+			count *= n
 		}
 	}
 	if depth > 0 {
-- 
2.43.0

