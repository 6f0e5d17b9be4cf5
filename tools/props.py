#!/usr/bin/env python3
"""writes properties.jsonl"""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "A glob matches exactly the strings of its language",
  "For every well-formed glob and every byte string, Match reports true exactly when the whole string can be divided into pieces accepted, in order, by the elements of the glob: literal text (itself), ? (one symbol, an invalid byte counts as one), * (any run of symbols), [..] (one symbol of the class), {..} (any one of its comma separated alternatives, which may hold wildcards). The optimizations (common prefix and suffix, merged wildcards, value maps, length bounds, early stop of a scan) never change the answer.",
  ["inputs"], "every well-formed glob text (valid UTF-8 without NUL; classes without U+FFFD) and every string, valid UTF-8 or not",
  "the tests sample a few hundred pairs of glob and string; the answer depends on backtracking over unbounded combinations of stars, lists with wildcards, multi-byte symbols and repeated substrings",
  ["glob/glob.go", "pkg/items/items.go", "pkg/items/string.go", "pkg/items/byte.go", "pkg/items/rune.go", "pkg/items/any.go", "pkg/items/star.go", "pkg/items/group.go", "pkg/items/stringlist.go", "pkg/items/chain.go", "pkg/items/runesranges.go", "pkg/items/wildcard.go", "pkg/utils/string.go"],
  [("prefix, suffix, bounds and items split of the parser", "glob.Parse"), ("matching with backtracking", "items.matchItems, items.matchStarItems"), ("one-element matchers", "Find and Match of the items"), ("quick checks", "glob.Glob.Match")],
  [("Glob.Items", "the elements between the literal prefix and suffix", "glob/glob.go")], ["glob.Glob.Match"])
p("C02", "Every glob text is parsed or rejected, never a panic or an endless loop",
  "Parsing any byte string as a glob, or as a dotted glob, ends without a panic and succeeds exactly for the well-formed texts: brackets closed, no nested list, no stray closing bracket, every class range ascending and between symbols of the same encoded length, and no empty part in a dotted glob. A parsed glob can be matched against any string without a panic.",
  ["inputs"], "every byte string as a glob or dotted glob text (whether a class with U+FFFD or invalid bytes is accepted is left open) and every string matched with it",
  "malformed texts are unbounded in number and the tests list only some dozens; index arithmetic on brackets, symbol boundaries and empty lists fails on specific shapes",
  ["glob/glob.go", "gglob/gglob.go", "pkg/items/wildcard.go", "pkg/items/group.go", "pkg/items/stringlist.go", "pkg/items/runesranges.go", "pkg/utils/runesranges.go"],
  [("element parser", "items.NextWildcardItem"), ("list values", "items.ListExpand, items.NewItemList, items.NewGroup"), ("class parser", "utils.RunesRangeExpand"), ("parts", "gglob.Parse")], None, ["glob.Parse", "gglob.Parse"])
p("C03", "Normalizing a glob keeps its language and is idempotent",
  "The normalized text of a parsed glob is itself a well-formed glob, accepts exactly the same strings as the original text, and normalizes to itself.",
  ["inputs"], "every well-formed glob text (valid UTF-8 without NUL; classes without U+FFFD)",
  "the trees identify globs by this text, so two globs with one text must be equal in language; tests compare a few listed texts",
  ["glob/glob.go", "gglob/gglob.go", "pkg/items/any.go", "pkg/items/star.go", "pkg/items/group.go", "pkg/items/stringlist.go", "pkg/items/runesranges.go", "pkg/utils/runesranges.go", "pkg/utils/asciiset.go"],
  [("text of the elements", "WriteString of the items"), ("merging of neighbours", "glob.Parse, items.AppendItem")], [("Glob.Node", "the normalized text", "glob/glob.go")], ["glob.Glob.String"])
p("C04", "Length bounds of a glob are sound",
  "Every string a glob accepts is at least as long, in bytes, as its minimal length and, unless the maximal length is the unlimited mark, at most as long as its maximal length. The same holds for dotted globs, with dots not counted.",
  ["inputs"], "every well-formed glob (valid UTF-8) and every accepted string",
  "the bounds are added up over elements, alternatives and multi-byte symbols; a bound wrong for one shape silently rejects matching strings",
  ["glob/glob.go", "gglob/gglob.go", "pkg/items/utils.go", "pkg/items/group.go", "pkg/items/chain.go", "pkg/items/stringlist.go", "pkg/items/any.go", "pkg/items/star.go", "pkg/utils/runesranges.go"],
  [("bounds of the elements", "MinLen and MaxLen of the items"), ("sums with the unlimited mark", "items.AddMaxLen, items.Chain.Append, items.NewGroup")], [("Glob.MinLen, Glob.MaxLen", "bounds", "glob/glob.go")], ["glob.Glob.MinLen", "glob.Glob.MaxLen"])
p("C05", "A dotted glob matches a path exactly part by part",
  "A dotted glob accepts a path exactly when the path (one dot at its end ignored) has as many parts as the glob, none of them empty, and every part is accepted by the glob of its position; the empty path is never accepted. Matching the parts given as a slice, with or without their total length with the dots between them, gives the same answer.",
  ["inputs"], "every well-formed dotted glob (valid UTF-8 without NUL; classes without U+FFFD) and every path",
  "tests sample paths; separators at the ends, empty parts, and length checks across parts are where implementations go wrong",
  ["gglob/gglob.go", "gglob/utils.go", "glob/glob.go"],
  [("path walk", "gglob.GGlob.Match"), ("parts walk", "gglob.GGlob.MatchByParts"), ("parts of the glob", "gglob.Parse")], None, ["gglob.GGlob.Match", "gglob.GGlob.MatchByParts"])
p("C06", "All path helpers agree on the parts of a path",
  "For every path, the trimmed text and level, the split, the split into a reused slice and the empty-part test describe one division: the path without one final dot, cut at its dots, with no parts for the empty path. The split into a reused slice reports false exactly for the empty path and for a path with an empty part.",
  ["inputs"], "every path and every previous content of the reused slice",
  "tests list a few paths; the helpers are written separately and differ on dots at the ends and repeated dots",
  ["gglob/utils.go"], [("level", "gglob.PathLevel"), ("splits", "gglob.PathSplit, gglob.PathSplitB"), ("empty part test", "gglob.HasEmptyParts")], None, ["gglob.PathLevel", "gglob.PathSplit", "gglob.PathSplitB"])
p("C07", "The glob tree reports exactly the member globs that match",
  "For every set of globs added to a tree, in any order, and every string, the set of (normalized text, index) pairs stored by a match is exactly the set of the members whose language contains the string, and the returned count is the number of stores made.",
  ["inputs", "histories"], "every sequence of added well-formed globs and every string",
  "members share prefixes, suffixes and nodes in unbounded ways and the tree matcher is written apart from the single matcher",
  ["glob/tree.go", "pkg/items/tree.go", "pkg/items/items.go"],
  [("sharing of nodes", "glob.addGlob, items.LocateChildTreeItem"), ("tree matching", "items.TreeItem.Match and its helpers")], [("GlobTree.Root", "the tree", "glob/tree.go")], ["glob.GlobTree.Match"])
p("C08", "The dotted glob tree reports exactly the members that match",
  "For every set of dotted globs added to a tree, in any order, whose parts with the same normalized text accept the same strings, and every path, the set of (normalized text, index) pairs stored by a match is exactly the set of the members which accept the path, and the returned count is the number of stores made. Matching the parts given as a slice reports the same.",
  ["inputs", "histories"], "every sequence of added well-formed dotted globs and every path",
  "nodes are shared between members and literal parts are looked up apart from wildcard parts; tests use small fixed trees",
  ["gglob/gtree.go", "gglob/gglob.go", "gglob/utils.go"],
  [("sharing of nodes", "gglob.addGGlob, gglob.LocateChildGTreeItem"), ("tree matching", "gglob.GTreeItem.MatchItems, gglob.GTreeItem.MatchItemsByParts")], [("GGlobTree.Root", "trees by the count of parts", "gglob/gtree.go")], ["gglob.GGlobTree.Match", "gglob.GGlobTree.MatchByParts"])
p("C09", "Glob trees register each glob once, under one index",
  "Adding to a glob tree or a dotted glob tree succeeds exactly when the index is not negative and not taken, the text is a non-empty well-formed glob, and neither the text nor its normalized form is registered; then the returned index is the given one, and the normalized text is registered under it both ways. A rejected add leaves the registries as they were and reports why: an invalid index, an existing glob with its index, a taken index with its glob, or the parse error.",
  ["histories", "inputs"], "every history of adds of texts and parsed globs with any indexes",
  "the answer depends on the whole history of earlier adds and on equivalent texts; tests try a few pairs",
  ["glob/tree.go", "gglob/gtree.go"], [("registration", "glob.GlobTree.Add, glob.GlobTree.AddGlob, gglob.GGlobTree.Add, gglob.GGlobTree.AddGlob")],
  [("Globs", "text to index", "glob/tree.go, gglob/gtree.go"), ("GlobsIndex", "index to normalized text", "glob/tree.go, gglob/gtree.go")], ["Add", "AddGlob"])
p("C10", "The tags tree registers each expression once, under one index",
  "Adding to the tags tree succeeds exactly when the index is not negative and not taken, the expression parses, and neither its text nor its normalized form is registered; then the returned index is the given one, and the normalized text is registered under it both ways. A rejected add leaves the registries as they were and reports why, as for the glob trees.",
  ["histories", "inputs"], "every history of adds of texts and parsed terms with any indexes",
  "the answer depends on the whole history of earlier adds and on equivalent texts; tests try a few",
  ["gtags/tree.go"], [("registration", "gtags.GTagsTree.Add, gtags.GTagsTree.AddTerms")], [("Queries, QueryIndex", "registries", "gtags/tree.go")], ["Add", "AddTerms"])
p("C11", "A tags expression matches exactly the tags satisfying every term",
  "A parsed expression accepts a set of tags exactly when every term is satisfied: a present tag must pass the comparison (equal or glob, regular expression, or their negations), an absent tag satisfies only the negated comparisons. Tags given as a map and as a slice (keys unique, __name__ first, then ascending) give the same answer.",
  ["inputs"], "every parsed expression and every set of tags",
  "the slice form keeps a position across terms and depends on which tags are missing and which keys repeat; tests sample a few",
  ["gtags/tagged_term.go"], [("comparison", "gtags.TaggedTerm.Match"), ("walks", "gtags.TaggedTermList.MatchByTags, gtags.TaggedTermList.MatchByTagsMap")], None, ["MatchByTags", "MatchByTagsMap"])
p("C12", "The tags tree reports exactly the member expressions satisfied",
  "For every set of expressions added to a tags tree, in any order, whose values with the same normalized text accept the same strings, and every set of tags as a map or as an ordered slice, the set of (normalized text, index) pairs stored by a match is exactly the set of the members the tags satisfy, and the returned count is the number of stores made. The key levels of the tree stay ordered, __name__ first, without duplicates.",
  ["inputs", "histories"], "every sequence of added expressions and every set of tags",
  "binary searches with start hints over tree levels and tags, and missing tags with negated terms, combine in unbounded ways; tests use fixed trees",
  ["gtags/items.go", "gtags/tree.go"], [("ordered insert", "gtags.TaggedItem.findOrAppend"), ("ordered search", "gtags.find, gtags.TaggedItem.find"), ("tree matching", "gtags.TaggedItem.MatchByTags, gtags.TaggedItem.MatchByTagsMap"), ("tree building", "gtags.TaggedItem.Parse")],
  [("TaggedItem.Items", "children by key, ordered", "gtags/items.go")], ["gtags.GTagsTree.MatchByTags", "gtags.GTagsTree.MatchByTagsMap"])
p("C13", "seriesByTag calls are parsed to exactly their terms or rejected",
  "A text is accepted exactly when, with outer spaces removed, it is seriesByTag( .. ) holding quoted conditions separated by spaces or commas, at most 128 not empty, each a non-blank key, one of = =~ != !=~, and a value which compiles as that operator needs. The terms are the trimmed keys (name as __name__) and values, ordered by key with __name__ first, operator and value; their text is the call with the conditions in this order.",
  ["inputs"], "every text",
  "the grammar is parsed by hand with index arithmetic; tests list about a hundred texts",
  ["gtags/tagged_term.go"], [("arguments", "gtags.seriesByTagArgs, gtags.parseString"), ("conditions", "gtags.ParseTaggedConditions, gtags.TaggedTerm.build"), ("text", "gtags.TaggedTermList.String")], None, ["gtags.ParseSeriesByTag"])
p("C14", "Tagged paths are split to the same tags in every form",
  "For both tagged path formats, the tags of a path are the unescaped name under __name__ and the unescaped key and value of every pair in order; the map forms are the slice form with later keys winning, a reused map keeps nothing of its old content, and all forms report an error for the same paths (no separator after the name, = in the name, or a last pair without =). A path built from escaped pieces gives back the pieces.",
  ["inputs"], "every path, and every list of name, keys and values joined to a path",
  "six functions written separately must agree on every text, malformed ones included; tests list some",
  ["gtags/tagged_term.go", "pkg/escape/unescape.go"], [("merge tree format", "gtags.PathTags, gtags.PathTagsMap, gtags.PathTagsMapB, gtags.NextTag"), ("graphite format", "gtags.GraphitePathTags, gtags.GraphitePathTagsMap, gtags.GraphitePathTagsMapB, gtags.GraphiteNextTag")], None, ["gtags.PathTags"])
p("C15", "Unescaping is total and inverts the escaping",
  "Unescaping any byte string ends without a panic, turns + into a space and every %XY with two hexadecimal digits into its byte, and keeps every other byte, a malformed escape with the two bytes after it included; unescaping an escaped query string gives back the original. The forms which write to a builder keep what it held and return the same text.",
  ["inputs"], "every byte string and every previous content of the builder",
  "tests list a few strings; escapes cut at the end and malformed digits are a matter of index arithmetic on every length",
  ["pkg/escape/unescape.go", "pkg/escape/url.go"], [("decoding", "escape.unescape, escape.ishex, escape.unhex, escape.isPercentEscape"), ("first escape", "utils.ASCIISet.Index")], None, ["escape.Unescape", "escape.UnescapeTo", "escape.UnescapeNameTo"])
p("C16", "Escaping follows the standard, into strings and buffers alike",
  "Escaping a query keeps letters, digits and - _ . ~, turns a space into + and every other byte into % and two upper-case hexadecimal digits; escaping a path also keeps $ & + , / : ; = @ and encodes the space. The forms which write to a buffer append exactly the text the string forms return.",
  ["inputs"], "every byte string and every previous content of the buffer",
  "two separate implementations must agree on every string and length (a stack buffer is used up to a size); tests list a few",
  ["pkg/escape/escape.go", "pkg/escape/url.go"], [("byte classes", "escape.shouldEscape"), ("string form", "escape.escape"), ("buffer form", "escape.escapeTo")], None, ["escape.Query", "escape.Path", "escape.QueryTo", "escape.PathTo"])
p("C17", "Symbol sets answer every query as sets do",
  "After any additions (and a merge), an ASCII set and a set of symbol ranges contain exactly the added symbols; the searches return the first (or last) position in a string or byte slice of a contained symbol, skipping invalid bytes, with the symbol and its length, or the not-found answer; the tests of the first and of the last symbol, the counts and the sizes agree with the same set.",
  ["inputs", "histories"], "every set of symbols from 1 up other than U+FFFD, built in any order, and every byte string",
  "bit arithmetic, binary search over ranges and decoding of invalid bytes fail for particular symbols and counts of ranges; tests try a few",
  ["pkg/utils/asciiset.go", "pkg/utils/runesranges.go"], [("bits", "utils.ASCIISet.Add, utils.ASCIISet.Contains"), ("ranges", "utils.RunesRanges.ContainsUnicode, utils.RunesRanges.Contains"), ("searches", "utils.RunesRanges.Index, utils.RunesRanges.IndexByte, utils.RunesRanges.StartsWith, utils.RunesRanges.EndsWith")],
  [("ASCIISet", "bits by symbol", "pkg/utils/asciiset.go"), ("UnicodeRanges", "ordered separate ranges", "pkg/utils/runesranges.go")], ["utils.RunesRanges.Contains"])
p("C18", "A symbol class is parsed to the union of its symbols and ranges",
  "A class is accepted exactly when every range in it ascends and joins symbols of the same encoded length, and then contains exactly the symbols and ranges written in it; its ranges are ordered and separate, and the text of a class is parsed back to an equal class. Merging a list of ranges gives ordered, separate ranges with the same union.",
  ["inputs"], "every class text without U+FFFD and NUL, every list of ascending ranges",
  "overlapping, adjacent and repeated ranges, dashes at the ends and mixed symbol lengths combine freely; tests list some classes",
  ["pkg/utils/runesranges.go", "pkg/utils/asciiset.go", "expand/runes.go"], [("class parser", "utils.RunesRangeExpand"), ("merge", "utils.RunesRangeMerge"), ("text", "utils.RunesRanges.WriteString, utils.ASCIISet.WriteString")], None, ["utils.RunesRangeExpand"])
p("C19", "Expansion gives the ordered product of the alternatives",
  "Expanding an expression without limits gives every combination of the alternatives of its lists and classes, in order with the first one changing slowest, each once per choice: list values as written, class symbols ascending without repeats. Everything from the first wildcard or unbalanced bracket on is kept as it is, as is a malformed class; a parsed expression can be expanded again with the same result.",
  ["inputs"], "every expression text whose classes hold no NUL and no U+FFFD",
  "nesting, malformed and empty expressions are unbounded; tests list some dozens",
  ["expand/expand.go", "expand/expression.go", "expand/runes.go"], [("splitting", "expand.getPair, expand.ParseExpr, expand.getExpression"), ("product", "expand.expand"), ("alternatives", "expand.Expression.appendNext, expand.runes.next")], None, ["expand.Expand"])
p("C20", "The limits of an expansion hold",
  "With a positive limit, alternatives are expanded from the left only while the product of their counts stays within it, so there are never more results than the limit; with limit 0 nothing is expanded; with a positive depth nothing is expanded after that many dots of fixed text; the try form takes only the first alternative of each. What is not expanded is kept as written, and no expression makes the call panic or overflow.",
  ["inputs", "configurations"], "every expression text whose classes hold no NUL and no U+FFFD, every limit, and every depth below the greatest integer",
  "products of counts can overflow any integer, and the limits interact with every split of the expression; tests try a few values",
  ["expand/expand.go", "expand/expression.go"], [("limits", "expand.expand"), ("counts", "expand.Expression.count"), ("preallocation", "expand.Expressions.Expand")], None, ["expand.Expand", "expand.ExpandTry"])
p("C21", "A store holds exactly what was stored since its last reset",
  "After any history of stores, resets and growths, the minimum store holds the least index stored since its start or last reset (-1 if none), the index and string stores hold the stored values in order, and the combined store holds all three; growing changes no content and gives the asked capacity.",
  ["histories"], "every history of calls with indexes from 0",
  "the state depends on the whole history, and the slices are reused after a reset; tests use one store once",
  ["pkg/items/store.go"], [("stores", "items.MinStore, items.IndexStore, items.StringStore, items.AllStore")], [("MinStore.Min, IndexStore.N, StringStore.S", "contents", "pkg/items/store.go")], ["Store", "Init", "Grow"])
p("C22", "Printed tags expressions parse back to the same terms",
  "Printing the terms of a parsed seriesByTag call and parsing the text again succeeds, gives the same terms (keys, operators, values) in the same order, and prints the same text again, when the keys and values hold no quote, no value starts with ~ or has outer spaces, and no wild value was written with a class.",
  ["inputs"], "every accepted text within the condition",
  "normalized globs, reordered conditions and printed operators must all be stable; tests print a few calls",
  ["gtags/tagged_term.go"], [("text", "gtags.TaggedTermList.String, gtags.TaggedTermList.WriteString"), ("parse", "gtags.ParseTaggedConditions, gtags.TaggedTerm.build")], None, ["gtags.ParseSeriesByTag"])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
