#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step: one table)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def at(*pairs):
    return [{"name": a, "where": b} for a, b in pairs]


R = "refextract/references/"
D = "refextract/documents/"
SPECS = []


def prop(pid, title, statement, over, quantified, why, files, mechanism, observe, technique, note,
         level="exploration"):
    SPECS.append(
        (
            {
                "id": pid, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": quantified},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": mechanism, "observe_at": observe,
                            "hook_needed": None},
            },
            {"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick",
             "thorough_cmd": f"python3 check.py {pid} --tier thorough",
             "technique": technique, "level": level, "level_note": note},
        )
    )


prop("P01", "Any text yields well-formed references, in reasonable time",
     "Extracting references (or a journal reference) from any text whatsoever returns a result, "
     "without raising and without needing time out of proportion to the text. Every reference is a "
     "dictionary from documented field names to non-empty lists of non-blank strings, carries its "
     "raw text, and its identifiers, years and journal fields have the documented form. No internal "
     "markup of the parser ever shows in a value.",
     ["inputs", "configurations"],
     "for all texts (any Unicode), both modes, every reference format and knowledge base",
     "the tests parse about a hundred well-behaved lines; a failure or a leak needs a particular "
     "combination of tokens, Unicode characters or repetition",
     [R + "engine.py", R + "tag.py", R + "record.py", R + "api.py", "refextract/authors/regexs.py"],
     at(("tag_reference_line", R + "tag.py"), ("parse_tagged_reference_line", R + "engine.py"),
        ("build_reference_fields", R + "record.py")),
     ["return value of extract_references_from_string / extract_journal_reference"],
     "online shape monitor on the entry points under hostile and coverage-guided workloads",
     "Sampled: every result of tens of thousands of hostile texts is checked, with a CPU budget per "
     "case several hundred times the usual cost.")

prop("P02", "A numbered bibliography comes back entry by entry, in order, verbatim",
     "For a bibliography whose entries are numbered consecutively in one of the supported marker "
     "styles, the references returned for an entry carry its number as marker and its text, "
     "unwrapped, as raw text; entries appear in the order of the text, and none is lost, split, "
     "merged or repeated. How the entries are broken over lines, indented, hyphenated or separated "
     "by blank lines has no influence, and an entry is parsed the same way whatever its neighbours.",
     ["inputs"],
     "for all bibliographies, numbers of entries, marker styles and line layouts",
     "the tests use a few fixed bibliographies, with one layout each",
     [R + "text.py", R + "find.py", R + "api.py", D + "text.py"],
     at(("rebuild_reference_lines", R + "text.py"), ("join_lines", D + "text.py"),
        ("find_numeration_in_body", R + "find.py")),
     ["linemarker and raw_ref of the returned references"],
     "offline checker of the returned sequence against the printed entries (exactly-once, order, "
     "verbatim) plus a metamorphic monitor over layouts",
     "Sampled layouts; the oracle is the list of entries the text was printed from.")

prop("P03", "The result of a call depends on its arguments only",
     "The same call returns the same result whatever calls were made before it in the process, "
     "whatever calls run at the same time in other threads, and whatever the hash seed, locale and "
     "working directory are. A call does not modify its arguments, and modifying a returned result "
     "or an argument afterwards does not influence later calls. Knowledge bases given to one call "
     "are not seen by another.",
     ["histories", "schedules", "configurations"],
     "for all histories of calls, all interleavings of concurrent calls, all process environments",
     "each test makes one call in one process, in one thread",
     [R + "kbs.py", R + "api.py", R + "engine.py", R + "tag.py", "refextract/extract.py"],
     at(("KBs cache", R + "kbs.py"), ("parse_references", R + "engine.py")),
     ["results of calls in histories, against pristine processes"],
     "history/thread/process replay with a recorded-result oracle (pristine forked process)",
     "Sampled histories and schedules (switch interval lowered to force interleavings).")

prop("P04", "No text of an entry is lost, repeated or made up",
     "Every word of an entry which is not part of a recognised element is found in the parsed "
     "fields of the entry's references, as often as it was printed. Every identifier, link, name, "
     "title, number and word in the parsed fields occurs in the entry (up to the normalisation of "
     "journal titles, years, volumes and report numbers).",
     ["inputs"],
     "for all entries, whatever the elements, their order and the text between them",
     "the tests compare the fields of fixed lines, and most of them pin what is lost as well",
     [R + "engine.py", R + "tag.py", R + "record.py"],
     at(("element transformations", R + "engine.py"), ("add_tagged_*", R + "tag.py")),
     ["all fields of the references of an entry"],
     "conservation monitor: unique made-up words are traced from the entry into the result, and "
     "words of the result back into the entry",
     "Sampled; words glued to a link by the deliberate repair of broken links are not generated.")

prop("P05", "DOIs, links, handles and ISBNs are extracted exactly as printed",
     "Every DOI (bare, prefixed, or as a doi.org link), every http, https or ftp link (raw or as an "
     "HTML link with its text), every handle and every ISBN printed in an entry is in the "
     "references of this entry, once, in the order of printing and character for character, "
     "without the punctuation or brackets around it. Nothing else is reported in these fields.",
     ["inputs"],
     "for all identifiers and links, all ways of printing them and all surroundings",
     "the tests contain about a dozen identifiers, each in one place",
     [R + "regexs.py", R + "tag.py", R + "engine.py", R + "record.py"],
     at(("identify_and_tag_DOI, identify_and_tag_URLs", R + "tag.py"),
        ("look_for_hdl", R + "engine.py"), ("re_doi, re_raw_url, re_hdl, re_isbn", R + "regexs.py")),
     ["doi, url, urldesc, hdl and isbn fields"],
     "ground-truth monitor: identifiers printed by the generator against identifiers returned",
     "Sampled; the generator prints DOIs and links of the usual shapes.")

prop("P06", "arXiv identifiers and report numbers come back in their standard form",
     "Every arXiv identifier (new or old style; with or without prefix, version, category and "
     "brackets; usual misspellings of the archive name; or as an arxiv.org link) and every report "
     "number following the report number knowledge base, printed in an entry, is reported once, "
     "in the order of printing, in its standard form: digits and letters complete, nothing of the "
     "surrounding text added. Nothing else is reported as a report number.",
     ["inputs"],
     "for all identifiers, all categories and numbering schemes of the knowledge base, all ways "
     "of printing them and all surroundings",
     "the tests sample some twenty numbers; the knowledge base describes some 1400 combinations "
     "of category and numbering scheme",
     [R + "tag.py", R + "kbs.py", R + "regexs.py", R + "kbs/report-numbers.kb", R + "engine.py"],
     at(("identify_report_numbers, tag_arxiv, tag_arxiv_more, tag_pos_volume", R + "tag.py"),
        ("build_reportnum_kb", R + "kbs.py"), ("re_arxiv*", R + "regexs.py")),
     ["reportnumber field"],
     "ground-truth monitor over generated entries and a sweep of the whole knowledge base",
     "The sweep prints every category with each of its numbering schemes; surroundings sampled.")

prop("P07", "A journal citation comes back with its title, volume, year and page",
     "A journal citation in one of the supported layouts is reported with the standard title of "
     "the journal (for every title of the journal knowledge base), its volume with the series "
     "letter (roman volumes in arabic digits), its year and its page (or range, or article number), "
     "in the order of printing; special journals get the year in front of the volume and "
     "three-digit pages; 'ibid.' repeats the title (and series) of the citation before it.",
     ["inputs", "configurations"],
     "for all titles of the knowledge base, numbers, layouts and surroundings",
     "the tests sample some forty citations; the knowledge base has some 18000 titles",
     [R + "tag.py", R + "engine.py", R + "record.py", R + "regexs.py", R + "kbs/journal-titles.kb"],
     at(("identify_journals, tag_numeration, identify_ibids", R + "tag.py"),
        ("handle_special_journals, format_volume, add_year_elements", R + "engine.py"),
        ("re_numeration*", R + "regexs.py")),
     ["journal_title, journal_volume, journal_year, journal_page and journal_reference fields"],
     "ground-truth monitor over generated citations and a sweep of the whole knowledge base",
     "The sweep prints every title with two numeration layouts; other layouts and surroundings "
     "sampled.")

prop("P08", "An entry which cites several papers gives one reference for each of them",
     "An entry which cites several papers, separated by semicolons or by the repetition of a journal "
     "citation, title, DOI or arXiv identifier, gives one reference for each of them, in the order of "
     "printing. Each has the identifiers, journal citation, title, publisher, collaboration and free "
     "text of its own paper and of no other; a paper without authors gets those of the paper before "
     "it; and all have the marker and the raw text of the entry. An entry which cites one paper gives "
     "one reference, whatever elements it consists of.",
     ["inputs"],
     "for all numbers of papers, elements of each and separators",
     "the tests contain a handful of entries with two or three papers, and splitting depends on the "
     "combination and order of all elements of the entry",
     [R + "engine.py", R + "tag.py"],
     at(("split_citations_iter, look_for_implied_ibids, remove_duplicated_*", R + "engine.py"),
        ("add_tagged_publisher", R + "tag.py")),
     ["fields of the references of one entry"],
     "ground-truth monitor: the papers an entry was composed of against the references returned",
     "Sampled combinations of up to six papers with up to eight elements each.")

prop("P09", "The linker callback is offered every element and links the right reference",
     "A linker callback given to an extraction is called for every element recognised in every "
     "citation: DOI, journal citation (also one with 'ibid.' or without repeated title), report "
     "number, link, handle, ISBN, title, authors, collaboration and publisher. The record id of a "
     "reference is, as a string, what the callback returned for the first element of this reference "
     "that it knows. A callback which knows nothing, returns a false value or raises KeyError or "
     "IndexError links nothing, and nothing but the record id depends on the callback.",
     ["inputs", "configurations"],
     "for all entries and all callbacks",
     "one test uses a callback, on one line",
     [R + "engine.py", R + "api.py", R + "record.py"],
     at(("associate_recids", R + "engine.py"),
        ("build_reference_fields", R + "record.py")),
     ["calls of the callback; recid field"],
     "trace monitor: every call of the callback is recorded and compared with the printed elements",
     "Sampled; callbacks do not modify the elements they are given.")

prop("P10", "The reference format only decides how a journal citation is printed",
     "For every journal citation of a reference, journal_reference contains the reference_format of "
     "the call filled in with the title, volume, year and page of this citation (the year is empty if "
     "there is none). No other field, and not the number or order of the references, depends on the "
     "format, and calls with different formats do not influence each other.",
     ["inputs", "configurations"],
     "for all texts and all formats out of the four documented fields and literal text",
     "the tests use two formats on a few lines",
     [R + "record.py", R + "engine.py", R + "api.py", "refextract/extract.py"],
     at(("add_journal_subfield, build_reference_fields", R + "record.py")),
     ["journal_reference and all other fields, for several formats"],
     "metamorphic monitor across formats plus recomputation of the printed citation",
     "Sampled texts and formats.")

prop("P11", "The reference section of a full text is found, from first to last entry",
     "For a full text (string or text file) with a numbered reference section, the references "
     "returned are those of the section: all of its entries, in order, with their numbers and texts, "
     "and nothing of the running text before it or of an appendix, acknowledgements or captions after "
     "it. The section may have any of the supported titles, be on the line of its first entry or have "
     "no title, be interrupted by page breaks with running headers, footers and page numbers, and the "
     "text before it may mention references and their numbers.",
     ["inputs"],
     "for all documents, titles, marker styles, page layouts and continuations",
     "the tests use three fixed documents",
     [R + "find.py", R + "text.py", D + "text.py", R + "engine.py"],
     at(("find_reference_section, find_end_of_reference_section", R + "find.py"),
        ("get_reference_section_beginning, extract_references_from_fulltext", R + "text.py"),
        ("strip_headers_footers_pagebreaks", D + "text.py")),
     ["markers and raw texts of the references of whole documents"],
     "ground-truth monitor: entries printed into generated documents against entries returned",
     "Sampled documents of up to 60 entries and 12 pages.")

prop("P12", "Bibliographies without numbers come back entry by entry, in order, verbatim",
     "A bibliography whose entries have labels in brackets, empty brackets or stars, or are separated "
     "by blank lines, or are told apart by the indentation of continuation lines, comes back entry by "
     "entry: in order, each with its label as marker and its unwrapped text as raw text, none lost, "
     "split, merged or repeated. It makes no difference whether it is given as a list of references, "
     "at the end of a full text or in a file, and each entry is parsed as it is on its own.",
     ["inputs"],
     "for all numbers of entries, labels and line layouts",
     "the tests contain no bibliography separated by blank lines or indentation and two with labels",
     [R + "text.py", R + "find.py", R + "regexs.py", D + "text.py"],
     at(("rebuild_reference_lines, test_for_blank_lines_separating_reference_lines", R + "text.py"),
        ("get_reference_line_marker_pattern", R + "regexs.py")),
     ["markers and raw texts of the references"],
     "offline checker of the returned sequence against the printed entries, in three ways of giving "
     "them",
     "Sampled bibliographies of up to 40 entries.")

prop("P13", "The batch functions answer item by item and never raise",
     "extract_references_from_list returns one answer for each raw reference, in the order of the "
     "list: the first reference extract_references_from_string finds in this item, or the raw "
     "reference itself if there is none or the item cannot be parsed (even if it is not text); "
     "extract_journal_info returns one answer for each publication info: the journal reference of its "
     "text, or an empty one. An answer depends on its own item only, not on the other items or on "
     "their order, and no argument is modified. extract_references_from_text returns the references of "
     "the text, and both "
     "extract_references_from_text and extract_references_from_file_url return None, without raising, "
     "for what they cannot read.",
     ["inputs", "histories"],
     "for all lists, all positions of an item and all journal knowledge bases",
     "the tests call each of them a few times, with lists of up to three items",
     ["refextract/extract.py", R + "api.py"],
     at(("extract_references_from_list, extract_journal_info", "refextract/extract.py")),
     ["return values of the functions of refextract.extract"],
     "item-by-item comparison monitor against the single-item functions",
     "Sampled lists of up to 12 items.")

prop("P14", "A document behind a URL gives what the file gives, and leaves nothing behind",
     "extract_references_from_url returns what extract_references_from_file returns for the bytes "
     "behind the URL, with the same other arguments, however the server sends them, whatever the URL "
     "looks like and whatever the chunk size is; it sends the given headers. If there is no such "
     "document, FullTextNotAvailableError is raised, if it is no PDF or text UnknownDocumentTypeError, "
     "and a download which fails or is cut short raises an error of requests; no partial document is "
     "ever parsed. Whatever happens, no temporary file, descriptor, process or thread is left behind.",
     ["inputs", "fault_sequences"],
     "for all documents, URLs, ways of sending, chunk sizes and points of failure",
     "the tests download one document from one URL with a mocked or recorded response",
     [R + "api.py", R + "errors.py"],
     at(("extract_references_from_url", R + "api.py")),
     ["return value or error; temporary directory, /proc/self, requests seen by the server"],
     "resource and result monitor over a real HTTP exchange with injected faults",
     "Sampled; loopback server.")

prop("P15", "A file gives what its text gives, whatever its type, junk, encoding and name",
     "extract_references_from_file returns, for a PDF or a plain text file with a reference section, "
     "the same references as extract_references_from_string for its text: all entries, in order, "
     "whatever the pages, running headers and footers, the encoding (undecodable bytes become "
     "replacement characters), the line ends, a byte order mark, the name of the file and the bytes "
     "before and after the PDF in it. A missing file raises FullTextNotAvailableError and a file of "
     "another type UnknownDocumentTypeError. A file without junk is left as it is, junk around a PDF "
     "is removed but never a byte of the PDF, and no other file, descriptor or process is left behind.",
     ["inputs", "configurations"],
     "for all documents, page layouts, encodings, names and bytes around a PDF",
     "the tests extract references from six PDFs and no text file",
     [R + "api.py", R + "engine.py", D + "pdf.py", D + "text.py"],
     at(("extract_references_from_file", R + "api.py"), ("get_plaintext_document_body", R + "engine.py"),
        ("convert_PDF_to_plaintext", D + "pdf.py"), ("clean_pdf_file", R + "engine.py")),
     ["return value or error; bytes of the file; temporary directory, /proc/self"],
     "ground-truth and resource monitor over generated PDF and text files",
     "Sampled files; PDFs are one-column, with a standard font.")

prop("P16", "The keys and links of a PDF go to the entries they belong to",
     "For a PDF made by LaTeX, extract_references_from_file gives each reference the key of the "
     "destination (cite.KEY) at its entry as texkey, however the destinations are stored, and the "
     "links which lie within its entry as url, each once: in one- and two-column documents, on all "
     "pages, and never to another entry; links in the running text and inside the document are "
     "ignored. If keys and references cannot be matched one to one, no keys or links are added. "
     "Everything else is what the text of the document gives.",
     ["inputs", "configurations"],
     "for all layouts, numbers of entries, positions and ways of storing destinations and links",
     "the tests read the keys of two PDFs",
     [R + "pdf.py", R + "api.py"],
     at(("extract_texkeys_and_urls_from_pdf", R + "pdf.py"), ("extract_references_from_file", R + "api.py")),
     ["texkey and url of the references of generated PDFs"],
     "ground-truth monitor over generated PDFs with known destinations and links",
     "Sampled layouts; the links of the last entry are on the page it starts on.")

prop("P17", "A knowledge base decides what its terms mean, in whatever form it is given",
     "With override_kbs_files, every term of the given knowledge base (journals, regexps of journals, "
     "special journals, publishers, collaborations, books, authors, report numbers) is recognised in a "
     "citation and standardised as the knowledge base says, whatever its case and the punctuation it "
     "is printed with, and the terms of the default knowledge base it replaces are not. A knowledge "
     "base given as dictionary, list, tuple or file, in any order and with comments and blank lines in the "
     "file, gives the same references; the fields which do not depend on it are those found without "
     "it. The longest matching term wins.",
     ["inputs", "configurations"],
     "for all knowledge bases, forms and orders of them, and texts citing their terms",
     "the tests override three knowledge bases, with a few terms each",
     [R + "kbs.py", R + "tag.py", R + "engine.py", R + "api.py"],
     at(("get_kbs, build_*_knowledge_base", R + "kbs.py"),
        ("identify_journals, identify_publishers, identify_report_numbers", R + "tag.py")),
     ["fields of the references"],
     "ground-truth and differential monitor over generated knowledge bases",
     "Sampled knowledge bases of made-up terms.")

prop("P18", "Authors, titles, publishers, collaborations and years come back as printed",
     "A citation comes back with its whole author group (initials before or after the names, any "
     "number of authors, et al., editors), its quoted title, its collaboration, its publisher in the "
     "form of the knowledge base and its year, each once and exactly as printed, whatever its other "
     "elements are. Every publisher, collaboration and book of the knowledge bases is recognised in "
     "any case, a book with the title and year of the knowledge base. No year, title, publisher or "
     "collaboration is made up.",
     ["inputs"],
     "for all author groups, titles, publishers, collaborations, books and years of the domain",
     "the tests contain a handful of each and most terms of the knowledge bases never appear in them",
     [R + "tag.py", R + "engine.py", "refextract/authors/regexs.py", R + "record.py"],
     at(("identify_and_tag_authors, tag_quotes, identify_and_tag_collaborations, identify_publishers",
         R + "tag.py"),
        ("look_for_books, look_for_undetected_books, add_year_elements", R + "engine.py")),
     ["author, title, collaboration, publisher, year"],
     "ground-truth monitor over generated citations and all terms of the knowledge bases",
     "Sampled; all publishers, collaborations and (thorough) books of the knowledge bases.")

prop("P19", "A list of lines is parsed line by line, and the statistics add up",
     "parse_references returns, for a list of reference lines, the references of each line, one line "
     "after the other, exactly as the line gives them in a list of its own, whatever the other lines "
     "are and however often a line occurs. The statistics it returns are the sum of those of the "
     "lines: the number of DOIs, links, arXiv and report numbers, journal citations, author groups "
     "and remaining texts found, and their printed form shows the same numbers. The list is not "
     "modified.",
     ["inputs", "histories"],
     "for all lists of lines",
     "no test looks at the statistics, and the tests give one or a few lines at a time",
     [R + "engine.py", R + "tag.py"],
     at(("parse_references, parse_references_elements, build_stats, parse_tagged_reference_line",
         R + "engine.py"), ("sum_2_dictionaries", R + "tag.py")),
     ["return value of parse_references"],
     "additivity monitor (list against its lines) and ground-truth monitor of the counts",
     "Sampled lists of up to 40 lines.")

# (more properties above this line)


def main():
    checks = [(p, c) for p, c in SPECS
              if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p, _ in checks:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [c for _, c in checks],
        "not_applicable": [],
        "notes": "No hooks: the monitors watch the public entry points, and where they need to "
                 "see inside (temporary files, processes, HTTP) they wrap the standard library.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
