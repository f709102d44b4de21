#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in step with MANIFEST.json by hand).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Singular lookup returns exactly the catalog's text for (context, msgid)",
 "A singular lookup (T/X) renders the translation stored under exactly that context and message id in the catalog selected by the current domain and locale. If the domain, the locale or the entry is missing, or its translation is empty, it renders the message id itself. No other domain, locale, context or message id (none containing the reserved EOT separator U+0004) can influence the answer, and the call never panics.",
 ["inputs","configurations"],"every set of domains, catalogs and entries; every context, msgid and argument list",
 "The tests look a handful of ids up in one fixture catalog; the guarantee is about every catalog, every key and every fallback combination.",
 ["translations.go","translaton.go","translator.go","translator/file.go","translator/util.go"],
 [("Translations.X / GetOrNoop","translations.go"),("Translation.GetOrNoop","translaton.go"),("File.X","translator/file.go"),("key","translator/util.go"),("nooptor.X","translator.go")],
 [("File.entries","catalog: context+EOT+msgid -> entry","translator/file.go"),("Translation.langs","locale -> catalog","translaton.go"),("Translations.domains","domain -> translation","translations.go")],
 ["T","X","File.X"])
p("C02","Plural lookup picks the form the catalog's rule selects, or falls back safely",
 "A plural lookup on a catalog entry that has plural forms renders the form whose index the catalog's plural rule yields for n; an entry without plural forms and without a source plural renders its singular translation, or the message id when that is empty. When the entry is missing, the rule is absent, invalid or fails, or the index is outside the declared number of forms, outside the forms present, or selects an empty form, it renders the source text chosen by n (msgid if n is 1 or no source plural was given, otherwise the source plural). No catalog content, rule or n makes it panic.",
 ["inputs","configurations"],"every catalog content and plural rule, every n in int64, every msgid/plural/argument list",
 "The tests use a catalog with nplurals=1; catalogs whose forms and rule disagree, and the boundary indices, are never exercised.",
 ["translator/file.go","translator/plural.go","f/format.go","translations.go"],
 [("File.XN64","translator/file.go"),("parsePlural","translator/plural.go"),("DefaultPlural","f/format.go"),("nooptor.XN64","translator.go")],
 [("File.plural","the parsed plural rule of the catalog","translator/file.go"),("Entry.MsgStrN","plural forms","translator/entry.go")],
 ["N","XN64","File.XN64"])
p("C03","Plural expressions evaluate with C semantics",
 "For every plural expression accepted by the plural grammar and every int64 n, evaluation returns the value C semantics gives it over 64-bit integers: arithmetic, shifts, bitwise, comparison, logical and conditional operators, with every nonzero value true. The expressions that are recognised and short-cut give, for every n, the value of the expression they stand for.",
 ["inputs","programs"],"every expression of the grammar, every n in int64, every pair of 64-bit operand values",
 "The tests evaluate each operator at one or two operand values and the stock formulas for n in 0..214 only.",
 ["plurals/exp.go","plurals/common.go","plurals/stack.go"],
 [("handleExpBop/handleExpPrefix/handleExpPostfix","plurals/exp.go"),("ExitPrimary/ExitStart","plurals/exp.go"),("commons table","plurals/common.go"),("Int64Stack","plurals/stack.go")],
 [("myListener.stack","operand stack","plurals/exp.go")],["plurals.Eval"])
p("C04","Failing plural expressions are contained, never crash",
 "Evaluating any expression string for any n returns normally: a malformed literal, a division or remainder by zero, a negative shift count or a syntax error is reported as an error and never as a panic. A catalog whose plural rule cannot be evaluated for n behaves as if no plural form applied, so the lookup shows source text.",
 ["inputs"],"every expression string (malformed, undefined, overflowing) and every n in int64",
 "The tests contain one malformed expression; the failing operand values and nesting cannot be enumerated by examples.",
 ["plurals/exp.go","translator/plural.go","plurals/stack.go"],
 [("Eval's deferred recover","plurals/exp.go"),("parsePlural closure","translator/plural.go")],(),["plurals.Eval","File.XN64"])
p("C05","Every shorthand and package-level call equals the full lookup it abbreviates",
 "T, N, N64, N1, N1_64, X, XN, XN1, XN64, XN1_64, both as package functions and as methods, give the result of the full context/plural lookup with the omitted context empty, the omitted source plural empty and n widened without loss, on the receiver (or the current global translations), with ids, n and arguments passed through unchanged and in order. The Mark helpers return their arguments unchanged.",
 ["inputs","configurations"],"every shorthand, every argument tuple, every translations value",
 "The tests call a few shorthands with a few literal arguments; nothing covers all argument positions of all of them.",
 ["translations.go","gettext.go","mark.go"],
 [("Translations shorthands","translations.go"),("package-level shorthands","gettext.go"),("noop mark methods","mark.go")],(),["T","N","X","XN","Mark"])
p("C06","Formatting keeps text verbatim without args and never touches the caller's args",
 "Rendering a message without arguments returns the message byte for byte, even if it contains formatting verbs. With arguments it formats like fmt.Sprintf except that surplus arguments leave no trace in the output. Formatting and lookups never modify the caller's argument slice or the memory behind it.",
 ["inputs"],"every format string and argument slice, including slices with spare capacity that share memory with others",
 "The tests pass literal variadic arguments, so the slice never has spare capacity and aliasing cannot show.",
 ["f/format.go"],[("Format","f/format.go"),("DefaultPlural","f/format.go")],(),["f.Format","T","N"])
p("C07","Derived handles are isolated from the handle they come from",
 "D, L, Global and WithContext return a handle that agrees with its origin in everything except the domain or locale asked for; obtaining it changes nothing in the origin. Afterwards no setter, bind, removal or clear on one of the two handles is visible through the other.",
 ["inputs","histories"],"every translations state and every later sequence of setters, binds, removals and clears on either handle",
 "The tests read a derived handle once; isolation concerns every later mutation of either side.",
 ["translations.go","init.go","context.go"],
 [("clone","translations.go"),("D / L","translations.go"),("Global","init.go"),("WithContext","context.go")],
 [("Translations.domains","must be a fresh map in each handle","translations.go")],["D","L","Global","WithContext"])
p("C08","Domain registry operations change exactly the named domain",
 "Binding a domain from a source that yields at least one loadable file makes exactly that domain resolve to the newly loaded catalogs; binding from a source that yields none leaves everything as it was. RemoveDomain reports whether a non-empty named domain existed and removes exactly it, resetting the current domain to the default one iff it was current; ClearDomains removes all and resets the current domain; HasDomain, Get and Domains agree with that history, and locale and source-code locale are never affected.",
 ["inputs","histories"],"every registry state, every domain name, every sequence of bind/remove/clear/query operations",
 "The tests walk through one sequence with two domains.",
 ["translations.go","init.go"],
 [("BindFS","translations.go"),("RemoveDomain / ClearDomains","translations.go"),("HasDomain / Domains / Get","translations.go"),("package-level wrappers","init.go")],
 [("Translations.domains","registry","translations.go"),("Translations.domain","current domain","translations.go")],["Bind","RemoveDomain","ClearDomains","HasDomain","Domains"])
p("C09","Loading a directory takes every readable .po/.mo catalog, .po overriding .mo",
 "Loading from a file system tries every regular file named *.mo and then every regular file named *.po, ignores other files, keeps each parsed catalog under the normalised language its header declares, and skips unreadable or malformed files without losing the others. When a .mo and a .po declare the same language the .po catalog is the one kept, whatever the walk order, and loading reports success iff at least one file was read and parsed.",
 ["inputs","configurations","fault_sequences"],"every file-system content, walk order, read failure and malformed file",
 "The tests load one directory with one language.",
 ["translaton.go","fs.go"],
 [("LoadFS two passes","translaton.go"),("LoadFile dispatch on suffix","translaton.go"),("AddOrReplace","translaton.go")],
 [("Translation.langs","language -> catalog","translaton.go")],["Load","Bind","Translation.LoadFS"])
p("C10","Locale selection is normalised and reports what is really used",
 "Setting a locale stores its ll_CC normal form (the system default for the empty string), and catalogs are registered under the same normal form, so spelling variants of one locale select the same catalog. UsedLocale is the selected locale iff the current domain has a catalog for it and the source-code locale otherwise; Locales is sorted, free of duplicates and consists of exactly the source-code locale and the languages of the current domain; MostMatchLocale of a handle is a member of that handle's Locales, matched against that handle's locale.",
 ["inputs","configurations"],"every locale string, every registry state, every handle (global or not)",
 "The tests use the global handle with zh_CN/en_US only.",
 ["translations.go","translaton.go","locale/detect.go","matcher.go","tag.go"],
 [("SetLocale / Locales / UsedLocale / MostMatchLocale","translations.go"),("Normalize","locale/detect.go"),("Match / Tags","matcher.go, tag.go")],
 [("Translations.locale","selected locale","translations.go")],["SetLocale","UsedLocale","Locales","MostMatchLocale"])
p("C11","Request and context negotiation",
 "The language of an HTTP request is the configured cookie's value if the request carries that cookie, and otherwise the supported locale (a member of Locales) that best matches Accept-Language; the lookup never fails or panics for any header. A locale or domain stored in a context is the one read back, is independent of the other, and WithContext applies exactly the ones that are present to a snapshot of the global translations.",
 ["inputs"],"every request (cookies, headers), option list, context chain and registry state",
 "The tests check one cookie and one header.",
 ["http.go","context.go","matcher.go","tag.go"],
 [("GetUserLang","http.go"),("SetCtx*/GetCtx*/WithContext","context.go")],(),["GetUserLang","WithContext"])
p("C12","Lookups on loaded catalogs are read-only, hence safe to run concurrently",
 "Once catalogs are loaded and the handle configured, every lookup and every query (T, N, X, XN and their variants, UsedLocale, Locales, HasDomain, Domains, Get, D, L) leaves all memory that existed before the call unchanged. Any number of them can therefore run concurrently with each other without a data race and with the same results as running alone.",
 ["schedules","inputs"],"every interleaving of lookups and queries on shared handles and catalogs",
 "The tests never run two lookups at once, and a race needs a schedule they do not control; a frame condition quantifies over all of them.",
 ["translations.go","translaton.go","translator/file.go","f/format.go"],
 [("lazy initHeader/initPlural done at load","translator/file.go"),("absence of writes in lookups","translations.go")],
 [("File.headers / File.plural","caches that must be filled before lookups","translator/file.go")],["T","N","X","XN64"])
p("C13","A catalog stores one entry per (context, msgid) and always reflects its header",
 "Adding an entry makes it the entry found under its context and message id, replacing only an entry with the same context and message id (free of the reserved EOT separator U+0004) and disturbing no other. The language and plural rule of a catalog are always those of its current header entry - the first value of each 'Name: value' line, trimmed - however entries, headers and queries were interleaved.",
 ["inputs","histories"],"every sequence of AddEntry, header queries and lookups; every header text",
 "The tests build catalogs once, header first; orders of operations and repeated or malformed header lines are not covered.",
 ["translator/file.go","translator/entry.go","translator/util.go"],
 [("AddEntry","translator/file.go"),("initHeader / GetHeader / initPlural","translator/file.go"),("Entry.Key / key","translator/entry.go, translator/util.go")],
 [("File.headers / File.plural","derived from the header entry","translator/file.go")],["File.AddEntry","File.Lang","File.GetHeader"])
p("C14","The PO reader implements the PO grammar on every input and never crashes",
 "For every byte sequence the PO and POT readers either report an error or return exactly the entries the PO line grammar defines: comments, context, id, plural id, (indexed) translations and continuation strings are attributed to the entry they belong to, and an entry ends where the next one begins. Translated entries are kept by the PO reader, all entries by the POT reader; trailing comments, blank lines, carriage returns or malformed lines never corrupt another entry or panic.",
 ["inputs"],"every byte sequence given to ReadPo and ReadPot",
 "The tests parse about two dozen small texts.",
 ["translator/po.go","translator/reader.go","translator/util.go"],
 [("readPo loop","translator/po.go"),("readEntry line state machine","translator/po.go"),("reader cursor","translator/reader.go")],
 [("previousLineState","which field continuation lines extend","translator/po.go"),("reader.lineNo","cursor","translator/reader.go")],["ReadPo","ReadPot"])
p("C15","Saving as PO and reading back gives the same catalog",
 "Writing a catalog of translated entries as PO and reading the result back yields the same entries: same keys, contexts, ids, plural ids, translations (any characters) and comment lines. Long and multi-line texts are split over several quoted lines without losing, adding or reordering a single byte.",
 ["inputs"],"every catalog whose entries are translated and whose comments are comment lines; every text",
 "The tests compare a few literal renderings; there is no round trip over arbitrary text.",
 ["translator/po.go","translator/pot.go","translator/wrap.go"],
 [("SaveAsPo","translator/po.go"),("writeString / split","translator/pot.go, translator/wrap.go"),("readEntry","translator/po.go")],(),["File.SaveAsPo","ReadPo"])
p("C16","Saving as POT keeps every message and blanks the translations",
 "A catalog written as POT contains every entry once with its comments, context, id and plural id unchanged and with empty translations of the right shape (two empty forms for plural entries), except that the header keeps its text. Reading it with the POT reader yields exactly those entries.",
 ["inputs"],"every catalog",
 "The tests compare a few literal renderings.",
 ["translator/pot.go","translator/wrap.go","translator/po.go"],
 [("SaveAsPot","translator/pot.go"),("writeString","translator/pot.go")],(),["File.SaveAsPot","ReadPot"])
p("C17","MO files written are well formed and read back to the same catalog",
 "A catalog saved as MO has the GNU layout: magic, revision, counts and table offsets that match the file, and for each entry a length/offset pair that addresses exactly its NUL-terminated original (context EOT id NUL plural) and translation (forms joined by NUL). Reading it back yields the same contexts, ids, plural ids and translations for every entry.",
 ["inputs"],"every catalog (below 4 GiB) whose texts do not contain the MO separators",
 "The only test re-reads one fixture file.",
 ["translator/mo.go"],
 [("SaveAsMo two-pass offset computation","translator/mo.go"),("writeMoHeader","translator/mo.go"),("moMsgID / moMsgStr","translator/mo.go")],(),["File.SaveAsMo","ReadMo"])
p("C18","The MO reader decodes both byte orders exactly and rejects bad files safely",
 "For every byte sequence the MO reader either returns an error or returns, for each of the N table slots, the entry denoted by the addressed byte ranges in the byte order the magic number announces, split at EOT into context and id and at NUL into plural id and forms. Wrong magic, unsupported revision, truncated tables and out-of-range offsets are errors; no input makes it panic or allocate a buffer larger than the input.",
 ["inputs"],"every byte sequence given to ReadMo",
 "The tests read one little-endian fixture file.",
 ["translator/mo.go"],
 [("ReadMo","translator/mo.go")],(),["ReadMo"])
p("C19","Saved files are deterministic, header first",
 "The saved form of a catalog depends only on its entries: the same set of entries gives the same bytes on every save, whatever the insertion or map order. Each entry appears exactly once, and entries with an empty message id (the header) come first.",
 ["inputs","histories"],"every set of entries, every map iteration order, every insertion history",
 "Map iteration order is random at run time; the tests save catalogs with one or two entries.",
 ["translator/file.go","translator/entry.go"],
 [("SortedEntry","translator/file.go"),("getSortKey / getLineString","translator/entry.go")],(),["File.SortedEntry","SaveAsPo","SaveAsPot","SaveAsMo"])
p("C20","xtemplate keyword declarations mean what the xgettext syntax says",
 "Every keyword list of the form name, name:id, name:id,plural, name:ctxc,id or name:ctxc,id,plural, separated by semicolons and with optional blanks, is parsed into exactly those names and argument positions in order. Anything else (empty name, non-numeric position, missing c, too many positions) is rejected with an error and never half-accepted or a panic.",
 ["inputs"],"every keyword string",
 "The tests parse a table of about twenty strings.",
 ["cmd/xtemplate/internal/keyword.go"],[("ParseKeywords","cmd/xtemplate/internal/keyword.go")],(),["ParseKeywords","xtemplate -k"])
p("C21","xtemplate extracts exactly the designated string arguments",
 "For every occurrence of a declared keyword as an operand in a template command whose designated operands (counted from it) all hold string literals (directly, parenthesised, or supplied by the preceding pipeline stage), one message is extracted whose context, id and plural id are those literals and whose source reference is that file and line. Operands of other names, or with a designated argument that is missing or not a literal, extract nothing, and arguments that no keyword position designates do not matter.",
 ["inputs","programs"],"every keyword declaration (any positions) and every template command",
 "The fixture templates only use the four stock keyword shapes with leading positions.",
 ["cmd/xtemplate/internal/run.go"],
 [("filter / extract / stringLiteral / pipedStringArg","cmd/xtemplate/internal/run.go")],(),["Run","xtemplate"])
p("C22","xtemplate visits every command of every template",
 "Every command reachable in a template - inside actions, if/else, range/else, with/else, template calls, nested parenthesised pipelines and chained operands, at any depth - is examined for keyword calls, with the line of its enclosing node. No template shape makes the traversal panic or skip a sibling.",
 ["programs"],"every template parse tree",
 "The fixture templates cover a few nestings of depth two.",
 ["cmd/xtemplate/internal/run.go"],
 [("resolveNode / resolvePipe / resolveCmds","cmd/xtemplate/internal/run.go")],(),["Run","xtemplate"])
p("C23","xtemplate merges repeated messages without losing any",
 "Messages extracted with the same context and id (free of U+0004) are merged into one entry that keeps the first id/plural and accumulates all source references in order of extraction; using one message both with and without plural is reported and keeps the first form unchanged. The written POT contains the header (with a plural-forms line iff some message is plural) and every collected message exactly once; the empty id without context is reserved for the header and is reported instead of being collected.",
 ["inputs","histories"],"every sequence of extracted messages",
 "The tests check presence of a few entries; merge order, conflicts and header are not checked.",
 ["cmd/xtemplate/internal/param.go"],
 [("Context.Add","cmd/xtemplate/internal/param.go"),("Context.pot / header","cmd/xtemplate/internal/param.go")],
 [("Context.entries","context+EOT+msgid -> entry","cmd/xtemplate/internal/param.go")],["Run","xtemplate"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as fh:
    for x in P: fh.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
