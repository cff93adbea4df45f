#!/usr/bin/env python3
"""writes tools/checks.json: which units and functions decide each property"""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blocks(*fs):
    return [l.split()[2] for f in fs for l in open(f"{R}/verus/contracts/{f}.vx") if l.startswith("//@@ block")]


q = blocks("query_po", "query_mo")
parser = ["escaping", "status", "query_po", "poline", "pohandle", "poread", "poparse", "pofile"]
pfuncs = ["unescape", "esc_next", "po_fuzzy", "po_remove", "po_new"] + blocks("poparse", "pohandle", "poread")
c = {
    "C01": {"units": ["escaping"], "functions": blocks("escaping")},
    "C02": {"units": ["escaping"], "functions": blocks("escaping")},
    "C03": {"units": parser, "functions": pfuncs, "theorems": ["theorem_bounded"],
            "bounded": "the counterexample search"},
    "C05": {"units": ["escaping", "wrap", "field", "print"],
            "functions": ["escape", "wrap", "get_linebreaks", "field_new", "ends_in_open_escape", "field_fmt", "default_msgstr_formatter",
                          "mo_entry_with", "mo_entry_to_string", "mo_entry_of", "po_to_string_with"]},
    "C06": {"units": ["wrap", "print"], "functions": ["wrap", "get_linebreaks", "format_comment", "po_to_string_with"]},
    "C08": {"units": ["mowrite", "metadata", "moread", "moround"], "functions": blocks("mowrite", "moread", "metadata"), "theorems": ["theorem_mo_round", "theorem_meta_back"]},
    "C09": {"units": ["mowrite", "metadata", "moformat"], "functions": blocks("mowrite") + ["meta_to_ordered", "meta_to_msgstr", "moentry_new"], "theorems": ["theorem_head", "theorem_strings", "theorem_order"]},
    "C10": {"units": ["moread", "mosource"], "functions": blocks("moread", "mosource") + ["mo_new"], "theorems": ["theorem_inside", "theorem_cut", "theorem_mo_source"]},
    "C11": {"units": ["compile", "mowrite", "save"], "functions": blocks("compile", "mowrite") + ["po_fuzzy", "po_translated", "po_translated_entries", "po_save_as_mofile", "mo_save", "mo_save_as_mofile"], "theorems": ["theorem_compiled"],
            "bounded": "the counterexample search"},
    "C12": {"units": ["query_po", "query_mo"], "functions": [b for b in q if "remove" not in b]},
    "C13": {"units": ["query_po", "query_mo"], "functions": [b for b in q if "remove" in b]},
    "C14": {"units": ["cmp"], "functions": blocks("cmp"), "theorems": ["theorem_mo_cmp", "theorem_po_cmp", "theorem_cmp_transitive"]},
    "C15": {"units": ["merge"], "functions": blocks("merge")},
    "C17": {"units": ["status"], "functions": blocks("status")},
}
c["C18"] = {"units": parser, "functions": pfuncs, "theorems": ["theorem_first_error"],
            "bounded": "the counterexample search"}
c["C07"] = {"units": parser + ["polinethm"], "functions": pfuncs,
            "theorems": ["theorem_own_field", "theorem_segments", "theorem_order_kept", "theorem_own_plural", "theorem_line_keyword", "theorem_line_keyword_obsolete",
                         "theorem_line_segment", "theorem_line_segment_obsolete", "theorem_line_plural", "theorem_line_plural_obsolete", "theorem_line_previous",
                         "theorem_line_previous_segment", "theorem_line_blank", "theorem_line_mark"],
            "bounded": "the counterexample search"}
printer = ["escaping", "wrap", "field", "print", "printfile"]
wfuncs = blocks("escaping", "wrap", "print", "printfile")
c["C04"] = {"units": ["readback", "metadata"] + printer + parser[1:], "functions": wfuncs + pfuncs + blocks("metadata"),
            "theorems": ["theorem_po_round", "theorem_written"], "bounded": "the file system and the counterexample search"}
c["C16"] = {"units": ["readback", "metadata", "moread", "moround"] + printer + parser[1:],
            "functions": blocks("metadata", "moread", "printfile") + ["po_new", "mo_metadata_as_entry", "unescape", "escape", "handle_ms", "handle_mc", "parse_with_handler"],
            "theorems": ["theorem_meta_unique", "theorem_meta_text_unique", "theorem_meta_back", "theorem_meta_read", "theorem_po_round"],
            "bounded": "the file system and the counterexample search"}
c["C19"] = {"units": ["poread", "pofile", "save", "readback"], "functions": blocks("poread", "save") + ["po_new"],
            "theorems": ["theorem_same_lines", "theorem_same_source", "theorem_undecodable", "theorem_saved_text", "theorem_saved_back"],
            "note": "Proved for all inputs; the contracts of the printer and of the parser that the proof uses are discharged by check C04.",
            "bounded": "the real file system (std::fs has trusted contracts) and the counterexample search"}
c["C20"] = {"units": ["pyentry", "pypofile", "pymofile", "pyreadpo", "pyreadmo"], "functions": blocks("pyentry", "pyfile", "pyread"),
            "note": "Proved for every wrapper of the package against the contracts of the Rust functions, which the checks of the other properties discharge. "
                    "The code that pyo3 generates (conversions of arguments, names, defaults) and the iterators are bounded: random programs on the real package.",
            "bounded": "the code generated by pyo3, argument names and defaults, module contents and iteration: random programs on the real package and on the Rust API"}
json.dump(c, open(f"{R}/tools/checks.json", "w"), indent=1)
open(f"{R}/tools/checks.json", "a").write("\n")
