# What decides each property: the functions whose contracts are proved ("roots",
# with everything they call), the spec files, and the level claimed.
import re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ct(name):
    return re.findall(r"^fn (\S+)", open(f"{V}/contracts/{name}.ct").read(), re.M)


U = ct("utils")
E = ct("escape")
TRUST = "Assumed: the models of Go strings, slices, maps and standard library functions in contracts/prelude.rs, the go2verus translation, Verus and Z3."
PARSER = ["sort.SliceStable gives some permutation of the slice (its order is not used)", "strings and slices are no longer than 2^47 bytes or elements", "item pointers are not shared: the parser's in-place changes are translated as value updates"]
TERMS = ["10sets.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs", "25terms.rs"]
GGTREE = ["10sets.rs", "14path.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs", "22gglob.rs", "23rec.rs", "27gtree.rs"]
CHECKS = {
    "C17": {
        "roots": [k for k in U if "ASCIISet" in k or "RunesRanges." in k],
        "level": "proof",
        "theorems": ["utils.ASCIISet.* contracts", "utils.RunesRanges.* contracts"],
        "note": "Every function of both sets is proved against the set of its symbols for all inputs (additions, merge, membership, searches, counts, sizes), panics and termination included. " + TRUST,
    },
    "C18": {
        "roots": ["utils.RunesRangeExpand", "utils.RunesRangeMerge", "utils.RunesRanges.WriteString", "utils.RunesRanges.String"],
        "specs": ["11classtext.rs"],
        "level": "proof",
        "theorems": ["utils.RunesRangeExpand contract", "utils.RunesRangeMerge contract", "lemma_class_roundtrip"],
        "note": "The class parser is proved to accept exactly the well-formed classes and to build exactly their symbols in ordered, separate ranges; the merge keeps the union; the text of a parsed class (without NUL and invalid symbols) is proved to be a class of the same symbols. " + TRUST,
    },
    "C15": {
        "roots": ["escape.ishex", "escape.unhex", "escape.isPercentEscape", "escape.unescape", "escape.Unescape", "escape.UnescapeTo", "escape.UnescapeNameTo", "escape.Query"],
        "specs": ["12escape.rs"],
        "level": "proof",
        "theorems": ["escape.Unescape contract", "escape.UnescapeTo contract", "escape.UnescapeNameTo contract", "lemma_unesc_esc"],
        "note": "Unescaping is proved to compute its recursive specification on every byte string and every builder content, without panics; unesc(esc(s)) == s is a proved lemma, and a postcondition of Query. " + TRUST,
    },
    "C16": {
        "roots": ["escape.shouldEscape", "escape.escape", "escape.escapeTo", "escape.Path", "escape.PathTo", "escape.Query", "escape.QueryTo"],
        "specs": ["12escape.rs"],
        "level": "proof",
        "theorems": ["escape.Path contract", "escape.Query contract", "escape.PathTo contract", "escape.QueryTo contract"],
        "note": "Both implementations are proved to produce the one specified text of every byte string, the buffer forms appended to any content. " + TRUST,
    },
    "C14": {
        "roots": ct("tags"),
        "level": "proof",
        "theorems": ["contracts of the six path functions and TagsMap over tags_of/path_ok_tags/tmap", "lemma_path_built_both"],
        "note": "Every form is proved to report an error exactly for the specified paths and to give the specified tags (the maps: the same tags with later keys winning; the reused map whatever it held); the lemma proves that a path of escaped pieces gives the pieces back. " + TRUST,
    },
    "C06": {
        "roots": ["gglob.PathLevel", "gglob.PathSplit", "gglob.PathSplitB", "gglob.HasEmptyParts"],
        "level": "proof",
        "theorems": ["contracts of the four path helpers over parts_of"],
        "note": "Each helper is proved to give the parts, their number or the empty-part test of one specified division, on every path and slice content. " + TRUST,
    },
    "C21": {
        "roots": ct("store"),
        "level": "proof",
        "theorems": ["contracts of the stores over histories (min_holds, idx_holds, str_holds, all_holds)"],
        "note": "Every call is proved to take a store which holds the contents of a history to one which holds those of the extended history, and every constructor to start with the empty one. The capacity after a growth is not part of the slice model: checked by the bounded search only. " + TRUST,
        "assumptions": ["the capacity a growth gives is only searched, not proved"],
    },
    "C01": {
        "roots": ["glob.Parse", "glob.Glob.Match"],
        "specs": ["10sets.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs"],
        "level": "proof",
        "theorems": ["glob.Parse contract: the parsed glob accepts exactly the language acc of its text (glok)", "glob.Glob.Match contract: the answer is the language of the glob (glang)"],
        "note": "The whole parser (elements, classes, lists, groups with their normalization, merging, prefix and suffix, value map) is proved to build, from every text of valid UTF-8 without NUL, a glob whose language is the specified one of the text; the whole matcher (backtracking over items, lists, groups and stars, search for first and last positions, quick checks) is proved to decide that language for every byte string, with termination and without panics. " + TRUST,
        "assumptions": PARSER,
    },
    "C03": {
        "roots": ["glob.Parse"],
        "specs": ["10sets.rs", "11classtext.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs", "30norm.rs"],
        "level": "exploration",
        "theorems": ["glob.Parse contract: the normalized text is the text of the elements (gshape), and the elements accept the language of the text (glok)", "theorem_text, theorem_normalize: the text of clean elements is well formed and accepts exactly what the elements accept"],
        "note": "Proved: the normalized text of every parsed glob with clean elements (literals without wildcards, class texts with one closing bracket) is a well-formed text of the same language. Bounded: that the normalized text normalizes to itself, and that only a class of one wildcard gives elements which are not clean. " + TRUST,
        "assumptions": PARSER + ["that normalizing twice changes nothing is only searched, not proved"],
    },
    "C04": {
        "roots": ["glob.Parse", "gglob.Parse", "glob.Glob.Match"],
        "specs": ["10sets.rs", "14path.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs", "22gglob.rs"],
        "level": "proof",
        "theorems": ["glob.Parse and gglob.Parse contracts: the bounds are the sums over the elements and parts (wfg, wfgg)", "lemma_glob_bounds, lemma_gglob_bounds: what the glob accepts is within the bounds"],
        "note": "The parsers are proved to set the bounds to the sums of the bounds of the elements (parts), and every accepted string (path, dots not counted) is proved to lie within them. " + TRUST,
        "assumptions": PARSER,
    },
    "C05": {
        "roots": ["gglob.Parse", "gglob.GGlob.Match", "gglob.GGlob.MatchByParts"],
        "specs": ["10sets.rs", "14path.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs", "22gglob.rs"],
        "level": "proof",
        "theorems": ["gglob.Parse contract: the part globs accept the languages of the parts of the text (ggok)", "gglob.GGlob.Match and MatchByParts contracts (gglang, plang)", "lemma_ggok"],
        "note": "Both walks are proved to decide the specified division into parts with the proved part matcher, for every path and every slice of parts (length not positive, or the length with the dots). " + TRUST,
        "assumptions": PARSER,
    },
    "C02": {
        "roots": ["glob.Parse", "gglob.Parse", "glob.Glob.Match", "gglob.GGlob.Match", "gglob.GGlob.MatchByParts"],
        "specs": ["10sets.rs", "14path.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs", "22gglob.rs", "23safe.rs"],
        "variant": "safe",
        "level": "proof",
        "theorems": ["glob.Parse and gglob.Parse contracts: success exactly for the well-formed texts tw, ggtw, of any bytes", "no obligation of panic freedom or termination left open in the parser, and in the matcher for any parsed items (wfs0)", "lemma_wfsx0: parsed items satisfy wfs0"],
        "note": "Both parsers are proved, for every byte string, to end without a panic and to succeed exactly for the well-formed texts; the matchers are proved to end without a panic on every string for all items a parse can give, of any byte string. " + TRUST,
        "assumptions": PARSER,
    },
    "C19": {
        "roots": ["expand.ParseExpr", "expand.Expand", "expand.ExpandTry", "expand.Expressions.Expand", "expand.expand", "expand.runesRangeExpand"],
        "specs": ["10sets.rs", "13store.rs", "24expand.rs"],
        "level": "proof",
        "theorems": ["expand.ParseExpr contract: the pieces have the products of the specified pieces of the text (eqv, eparse)", "expand.expand and Expressions.Expand contracts: the results are the specified product (prod), and the expression is as before", "theorem_product: without limits this is the ordered product of the alternatives"],
        "note": "The parser (first pair of brackets, lists, classes with their ordered merge, joined texts, wildcard rest), the walk over the alternatives and the recursion are proved to give exactly the specified sequence of strings, for every text whose classes hold no NUL and no U+FFFD, with termination and without panics on all texts. " + TRUST,
        "assumptions": ["sort.Slice gives a permutation sorted by its less function, which is proved to be a strict weak order", "strings and slices are no longer than 2^47 bytes or elements"],
    },
    "C20": {
        "roots": ["expand.ParseExpr", "expand.Expand", "expand.ExpandTry", "expand.Expressions.Expand", "expand.expand", "expand.runesRangeExpand"],
        "specs": ["10sets.rs", "13store.rs", "24expand.rs"],
        "level": "proof",
        "theorems": ["expand.expand contract for every count, limit and depth (prod)", "theorem_limit, theorem_expand: never more results than the limit, one result when the limit is 0 or for the try form, always at least one", "no overflow: every multiplication and addition of the counts is an obligation"],
        "note": "The code is proved to compute the specified sequence prod for every limit and depth, machine arithmetic included; the bounds follow as theorems. " + TRUST,
        "assumptions": ["sort.Slice gives a permutation sorted by its less function, which is proved to be a strict weak order", "strings and slices are no longer than 2^47 bytes or elements", "the depth is below the greatest integer (the code adds 1 to it)"],
    },
    "C11": {
        "roots": ["gtags.ParseSeriesByTag", "gtags.TaggedTermList.MatchByTagsMap", "gtags.TaggedTermList.MatchByTags"],
        "specs": TERMS,
        "level": "proof",
        "theorems": ["gtags.TaggedTermList.MatchByTagsMap and MatchByTags contracts (allsat, by key)", "theorem_terms: for parsed terms the answer is the conjunction of the comparisons of the text, globs by their specified language", "theorem_same_tags: the map form and the slice form agree on the same ordered tags"],
        "note": "The comparison of every term and both walks are proved for all parsed terms and all tags (slices ordered, __name__ first, keys unique), glob matching included. " + TRUST,
        "assumptions": PARSER + ["regular expressions are uninterpreted: a compiled text accepts what re_match says"],
    },
    "C13": {
        "roots": ["gtags.ParseSeriesByTag", "gtags.TaggedTermList.String"],
        "specs": TERMS,
        "level": "proof",
        "theorems": ["gtags.ParseSeriesByTag contract: accepted exactly when the text is a call with correct conditions (qargs, call_ok, conds, all_ok), and the terms are those of the conditions, sorted (parsed, tsorted)", "gtags.TaggedTermList.String contract (terms_txt)"],
        "note": "The argument scanner, the conditions, the values (globs with the proved parser) and the order are proved for every text, panics and termination included. " + TRUST,
        "assumptions": PARSER + ["regexp.Compile succeeds for the texts re_ok says; the results are uninterpreted", "sort.Slice gives a permutation sorted by its less function, which is proved to be a strict weak order", "strings.TrimSpace removes the outer symbols which unicode.IsSpace names"],
    },
    "C22": {
        "roots": ["gtags.ParseSeriesByTag", "gtags.TaggedTermList.String"],
        "specs": ["10sets.rs", "11classtext.rs"] + TERMS[1:] + ["30norm.rs", "31round.rs"],
        "level": "exploration",
        "theorems": ["gtags.ParseSeriesByTag and TaggedTermList.String contracts (parsed, terms_txt)", "theorem_round: the printed text of the terms of an accepted call is accepted; without wild values its terms are the same in the same order and print the same text, and with wild values of clean elements they match the same sets of tags"],
        "note": "Proved: the printed text is parsed, to the same terms in the same order when no value is wild, and to terms which match the same tags when wild values have clean elements. Bounded: that wild values normalize to the same text again. " + TRUST,
        "assumptions": PARSER + ["that normalizing a wild value twice changes nothing is only searched, not proved", "regular expressions are uninterpreted: re_ok says which texts compile", "strings.TrimSpace removes the outer symbols which unicode.IsSpace names"],
    },
    "C10": {
        "roots": ["gtags.NewTree", "gtags.GTagsTree.Add", "gtags.GTagsTree.AddTerms"],
        "specs": TERMS + ["26tagtree.rs"],
        "level": "proof",
        "theorems": ["gtags.GTagsTree.Add and AddTerms contracts: the answer and both registries in every case, and every description of the tree by its members and registries (gt) extended by the new one", "gtags.NewTree contract: no members"],
        "note": "Adds are proved for every tree which earlier adds can build (the invariant gt over all histories): each case of the answer, the registries after it, nothing changed when rejected, other trees untouched. " + TRUST,
        "assumptions": PARSER + ["trees are changed by Add and AddTerms only", "terms given to AddTerms have a key and one of the four operators"],
    },
    "C12": {
        "roots": ["gtags.NewTree", "gtags.GTagsTree.Add", "gtags.GTagsTree.AddTerms", "gtags.GTagsTree.MatchByTags", "gtags.GTagsTree.MatchByTagsMap"],
        "specs": TERMS + ["26tagtree.rs"],
        "level": "proof",
        "theorems": ["gtags.TaggedItem.findOrAppend, find, Parse contracts: levels ordered, one node for every path of terms", "gtags.GTagsTree.MatchByTags and MatchByTagsMap contracts: the stores are what the nodes below the root ask (treefound), the count is their number", "theorem_tree_match: these are exactly the members whose terms are satisfied", "lemma_psat: a member's terms are satisfied exactly when its expression is"],
        "note": "The tree is a heap of nodes with an invariant (every node has one path of terms, levels ordered, no sharing) which every add is proved to keep; both walks are proved to store exactly the members satisfied, with termination and without panics. " + TRUST,
        "assumptions": PARSER + ["terms with the same key, operator and normalized value accept the same strings (C03)", "trees are changed by Add and AddTerms only", "the slice of tags is ordered, __name__ first, keys unique", "a store is called at most 2^47 times in one match", "regular expressions are uninterpreted: a compiled text accepts what re_match says"],
    },
    "C09": {
        "roots": ["glob.NewTree", "glob.GlobTree.Add", "glob.GlobTree.AddGlob", "gglob.NewTree", "gglob.GGlobTree.Add", "gglob.GGlobTree.AddGlob"],
        "specs": GGTREE + ["28tree.rs"],
        "level": "proof",
        "theorems": ["glob.GlobTree.Add, AddGlob, gglob.GGlobTree.Add, AddGlob contracts: every answer by the index, the registries and the text, the registries after it", "taccepted, accepted: an accepted glob is one member more, both registries hold it", "tregs, regs: members, texts and indexes correspond"],
        "note": "The contracts state every outcome (kept text, index, error, registries) from the registries before the call, and that text is accepted exactly when it is well-formed; that the registries and the members of the tree correspond is an invariant which every add is proved to keep, for both trees. " + TRUST,
        "assumptions": PARSER + ["trees are changed by Add and AddGlob only"],
    },
    "C08": {
        "roots": ["gglob.NewTree", "gglob.GGlobTree.Add", "gglob.GGlobTree.AddGlob", "gglob.GGlobTree.Match", "gglob.GGlobTree.MatchByParts"],
        "specs": GGTREE,
        "level": "proof",
        "theorems": ["gglob.addGGlob contract: one node for every path of parts, below the root of their count", "gglob.GGlobTree.Match and MatchByParts contracts: the stores are what the nodes below the root ask (treefound), the count is their number", "theorem_gtree_match: these are exactly the members whose parts accept the parts of the path", "lemma_psat: that is the language of the member"],
        "note": "The tree is a heap of nodes with an invariant (every node has one path of parts, plain parts found by text, others in the list, no sharing) which every add is proved to keep; both walks are proved to store exactly the members which accept the path, the part matcher included, with termination and without panics. " + TRUST,
        "assumptions": PARSER + ["parts with the same normalized text accept the same strings (C03)", "trees are changed by Add and AddGlob only", "a store is called at most 2^47 times in one match"],
    },
    "C07": {
        "roots": ["glob.NewTree", "glob.GlobTree.Add", "glob.GlobTree.AddGlob", "glob.GlobTree.Match"],
        "specs": ["10sets.rs", "16match.rs", "17text.rs", "18parse.rs", "19group.rs", "20next.rs", "21glob.rs", "23rec.rs", "28tree.rs", "29tmatch.rs"],
        # the items of a group hold no lists and no groups
        "unreachable": ["items.TreeItem.matchItemsInTree", "items.TreeItem.matchStarItemsInTree"],
        "level": "proof",
        "theorems": ["glob.GlobTree.Add contract: one node for every path of elements (suffix, prefix, items), below the root", "items.TreeItem.matchNextTreeItem, matchStarNextTreeItem, match, matchStar contracts (did): a call stores exactly the records at the end of the paths which accept the rest of the text", "items.TreeItem.Match contract (rpre): the same from the root, suffix nodes by the end of the text", "theorem_tree_match: these are exactly the members whose glob accepts the text"],
        "note": "The tree is a heap of nodes with an invariant (every node has one path of elements, suffixes only below the root, no sharing) which every add is proved to keep; the walk over it, every backtracking loop included, is proved to store exactly the members whose glob accepts the string, with the count their number, with termination and without panics; that the language of a glob is the one of its text is glok, proved of the parser (C01). " + TRUST,
        "assumptions": PARSER + ["trees are changed by Add and AddGlob only", "a store is called at most 2^47 times in one match"],
    },
}
