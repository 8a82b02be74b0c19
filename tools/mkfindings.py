"""Writes known_findings.json from the repairs made in /repo and the findings left open."""
import json, os, subprocess
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIXED = [
 ("C19", "assigning None to a weak attribute", "a weak attribute assigned None kept returning the previous object, so a label kept a heading it no longer lies under"),
 ("C03", "positional attribute lookup respects", "a positional lookup could return an entry written for another target, and values were altered on return"),
 ("C04", "context updates of booleans", "updating a bool/int/float entry from text that cannot be converted raised instead of being ignored"),
 ("C04", "values nested in context entries", "nested lists and dicts were shared between a context, its parent and the values it was updated from"),
 ("C05", "a header is only closed", "a header was closed by a line with a different number of dashes or by dashes inside a line"),
 ("C05", "header entries unescape", "escaped colons stayed escaped and the text of less indented continuation lines was lost"),
 ("C05", "strip the space around a single", "a single list item kept its surrounding space"),
 ("C05", "stripping quotes does not", "stripping quotes changed the space of blank lines"),
 ("C02", "macro expansion resolves chains", "chains of macros were left unresolved after a fixed number of passes; self-referential macros grew without end"),
 ("C01", "tags without content items", "group_strings dropped tags whose content is empty"),
 ("C07", "circular and moved includes", "a document including an ancestor recursed without end, and a moved include left two places in the tree"),
 ("C07", "includes that name a file", "the same file included by two spellings of its path became two documents"),
 ("C08", "pdf fingerprints see moved line breaks", "PDF files that differ only in where lines are broken had the same fingerprint"),
 ("C08", "a finished run of a builder is not reused", "a builder object whose external run had finished reported done after its inputs changed"),
 ("C09", "flatten lists the sub-builders of the given builder", "flatten given a builder listed the sub-builders of the object it was called on"),
 ("C10", "previous and next links are set for the targets of every document", "navigation links were only set for the targets of the first document"),
 ("C11", "references are rendered as text", "a reference rendered for a text target raised"),
 ("C11", "references to documents without the target are not links", "a reference to a document that is not rendered to the target was a link to nothing"),
 ("C11", "renaming a path without an extension", "renaming a path without an extension added a trailing dot"),
 ("C16", "contents of verbatim tags are not parsed", "verbatim contents were parsed when the tag was placed in a paragraph"),
 ("C12", "headings without a label keep their text in tex", "the text of a heading without a label was lost in LaTeX"),
 ("C12", "figures keep their class attribute in html", "rendering a figure dropped its class attribute"),
 ("C12", "html_tag renders the tag", "html_tag raised instead of rendering"),
 ("C03", "a default of two items is returned unchanged", "a two-item default was taken for an entry and its second item returned"),
 ("C03", "positional attribute lookup does not use entries written for another target", "a positional lookup used an entry written for another target"),
 ("C12", "positional attributes named like an html attribute", "a positional attribute named like an html attribute was written with its type as value"),
 ("C12", "html tags use the attributes written for the html target", "attributes written for the html target did not reach the html element"),
 ("C18", "spaces of blank lines before a list item", "the spaces of a blank line before an item were counted in the level of the item"),
 ("C18", "list items are not nested in items with a higher level", "an item was nested in a preceding item of a higher level"),
 ("C17", "flattening a tag includes the tags in nested lists", "tags in nested lists were not listed by flatten"),
 ("C17", "copies of image and equation tags do not share", "the copy of an image tag shared its rendered-files dictionary with the original"),
 ("C20", "package versions followed by a suffix are decoded", "a version followed by a suffix was not decoded"),
 ("C20", "python package checks do not use packages whose name only starts", "a package whose name only starts with the required name met the requirement"),
 ("C20", "versions with a different number of components", "versions with a different number of components were never or wrongly compared"),
 ("C20", "groups of dependencies nested deeply are listed", "members of deeply nested groups were not listed"),
 ("C03", "filtered attributes are stripped with the given separator", "filter(sep=':') left the target suffix in the names"),
]
KNOWN = []
extra = os.path.join(HERE, "tools", "findings_extra.py")
if os.path.exists(extra):
    exec(open(extra).read())
log = [x.split(" ", 1) for x in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines()]
out = []
for prop, key, what in FIXED:
    h = [a for a, b in log if b.startswith("fix:") and key in b]
    assert len(h) == 1, (key, h)
    out.append({"kind": "fixed", "property": prop, "commit": h[0], "what": "fixed: property=%s %s %s" % (prop, h[0], what)})
used = {x["commit"] for x in out}
for a, b in log:
    if b.startswith("fix:") and a not in used:
        print("unlisted:", a, b)
json.dump(out + KNOWN, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
