claim("C01", "Proved for all inputs: Translations.X, GetOrNoop, File.X, nooptor.X and f.Format meet contracts that spell out exactly which map entries decide the text.")
claim("C02", "Proved for all inputs: File.XN64, parsePlural, initHeader, DefaultPlural and the handle-level XN64 against the property's case table; plurals.Eval is assumed to be a function of the expression and n here (its own behaviour is C03/C04).")
claim("C05", "Proved for all inputs: each of the 27 shorthands against the postcondition of the full lookup.")
claim("C06", "Proved for all inputs: f.Format and DefaultPlural render what fmt.Sprintf renders for the format with an appended directive consuming one extra empty argument, and write no memory that existed before; that this directive makes surplus arguments leave no trace is fmt's documented behaviour (checked by the bounded harness).")
claim("C07", "Proved for all inputs: D, L, Global return a fresh handle with a fresh equal map; every setter writes only its receiver's fields or map (frame conditions).")
claim("C08", "Proved for all inputs: RemoveDomain, ClearDomains, HasDomain, Domains, Get and the setters against map-level contracts with frames.")
claim("C10", "Proved for all inputs: normalisation, SetLocale, AddOrReplace, UsedLocale, Locales, MostMatchLocale, Tag/Tags/Match; x/text's Make/Base/Region/Match are assumed pure functions.")
claim("C12", "Proved for all inputs: lookups and queries on a configured handle have the frame 'modifies nothing'; absence of writes implies absence of data races and equal results.")
claim("C13", "Proved for all inputs: AddEntry, GetHeader, Lang, initHeader keep the invariant that cached headers and rule are those of the current header entry.")
claim("C09", "Proved for all inputs, over an assumed model of fs.WalkDir (a finite sequence of visits): LoadFS, LoadFile, LoadPo, LoadMo, AddOrReplace; ReadPo and ReadMo are assumed functions of the content here (C14, C18).")
claim("C11", "Proved for all inputs: GetUserLang, cookie options, context accessors; that the matcher's choice is the best match is checked by the bounded harness.")
claim("C20", "Proved for all inputs: ParseKeywords against a declarative reading of the xgettext declaration syntax, position by position, with an error for each malformed declaration; strings.Split/Index/Atoi are modelled.")
claim("C18", "Proved for all inputs: ReadMo returns an error exactly for the byte sequences that are not MO files (magic, revision, table and text bounds) and otherwise the entries the last slot of each key denotes, in the announced byte order; no panic, no allocation beyond the input; bytes.Reader and encoding/binary are modelled.")
claim("C15", "Proved for all inputs: SaveAsPo writes exactly the text poFile defines over the entries (comment lines, keyword lines, split texts quoted line by line) and split's pieces concatenate to the text; that the reader gives those entries back is checked by the bounded harness.")
claim("C16", "Proved for all inputs: SaveAsPot writes exactly the text potFile defines over the entries, each once, with blank translations of the right shape and the header's own text; that the POT reader gives those entries back is checked by the bounded harness.")
claim("C17", "Proved for all inputs: SaveAsMo writes exactly the bytes moFile defines, and by lemma those bytes satisfy the reader's acceptance condition (C18's moOK) with every slot addressing the entry's original and translation, which decode to the entry's fields; encoding/binary is modelled and the total size is taken below 4 GiB.")
claim("C19", "Proved for all inputs: SortedEntry lists every entry once, in the strict order sort key then map key (header first), which only one permutation satisfies; the three writers' output is a function of that list; sort.Slice is modelled.")
claim("C14", "Proved for all inputs: ReadPo and ReadPot against a declarative reading of the PO line grammar (poOK/poEnt over the text): error exactly for texts that are not PO, otherwise the entries in order, the last one of each key; bufio.Reader and strconv.Unquote are modelled.")
_P = "contracts for this property are still being written; not claimed yet"
NA = {i: _P for i in ["C03","C04","C21","C22","C23"]}
