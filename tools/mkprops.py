"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/disseminate/"+f for f in files],
            state=[dict(name=a, meaning=b, where="src/disseminate/"+c) for a, b, c in state],
            mechanism=[dict(name=a, where="src/disseminate/"+b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Markup parsing neither loses, duplicates nor reorders text",
  "Parsing a source text yields, in source order, exactly the tags written in it - each with its own name, attributes and (recursively parsed) content - and every character outside tag syntax, unchanged and in place. Adjacent strings are merged and empty ones dropped, and text that is already structured keeps its structure. A tag whose brace is never closed, or nesting beyond the allowed depth, raises a tag error instead of producing altered content.",
  ["inputs"], "all source strings and already-parsed contents",
  "Tests parse a few dozen fixed fragments; any arrangement of tags, braces, brackets and text must conserve the text.",
  ["tags/receivers/content.py", "utils/string.py"],
  [("parse_tags", "tags/receivers/content.py"), ("group_strings", "utils/string.py")], observe=["tag.content after parsing"])
p("C02", "Macro expansion is complete, precedence-respecting and terminates",
  "After macro expansion no reference to a defined, non-self-referential macro remains, including macros whose values are written in terms of other macros, whatever the chain length. When several dictionaries define a macro the first one wins, dotted names read object attributes and keep an unresolvable dotted remainder as text, and text that names no defined macro is left unchanged. Expansion always terminates.",
  ["inputs"], "all texts and all macro dictionaries",
  "Tests expand three or four macros one or two levels deep; chain length, mutual references and attribute paths are unbounded.",
  ["utils/string.py", "tags/receivers/macros.py"],
  [("replace_macros", "utils/string.py"), ("process_macros", "tags/receivers/macros.py")])
p("C03", "Target-specific attributes reach exactly the target they name",
  "Looking up or filtering attributes for a target uses the entry written for that target when there is one, otherwise the general entry, and never an entry that names another target; a positional value asked for by its type is the one written for the target, else a general one. Entries keep their order and values. Filtering and copying leave the original attributes unchanged; stripping removes the target suffix and lets the target-specific entry win. Rendering as HTML or LaTeX arguments writes every entry exactly once, positional ones without a value.",
  ["inputs"], "all attribute collections, attribute names and targets",
  "Tests use a handful of literal attribute strings; the rule must hold for every mix of general, target-specific and positional entries.",
  ["attributes/attributes.py", "utils/types.py", "utils/list.py"],
  [("strip_attr, find_item, get, filter, strip, append", "attributes/attributes.py"), ("ispositional", "utils/types.py")])
p("C04", "Context inheritance is isolated, typed and resettable",
  "A context built from a parent starts with the parent's inheritable entries overridden by its own initial values, and resetting it restores exactly that state, keeping only the entries exempt from reset. Updating an entry keeps the type it already has: lists are prepended to, sets united, mappings merged recursively, booleans/integers/floats parsed from text with unparsable values ignored. No update of a child context ever changes its parent, a sibling, or the values it was updated from.",
  ["inputs", "histories"], "all contexts, parents, initial values and sequences of updates and resets",
  "Tests check single updates of small literal dictionaries; aliasing shows only across histories of updates over shared nested values.",
  ["context/context.py", "utils/classes.py"],
  [("match_update, reset, __init__, filter, is_valid", "context/context.py"), ("all_attributes_values", "utils/classes.py")],
  state=[("context entries", "own values of the context", "context/context.py"), ("parent_context", "context inherited from", "context/context.py")])
p("C05", "Document headers are split off and decoded without touching the body",
  "A text beginning with a header fenced by matching dashed lines yields a body that is exactly the text after the closing fence, and otherwise the whole text is the body. Every header line of the form 'key: value' becomes an entry with that key and value, further-indented or non-entry lines belong to the entry above them, a repeated key accumulates, and an escaped colon is a literal colon. List-valued text is split at semicolons, else lines, else commas, without losing an item.",
  ["inputs"], "all header texts and bodies",
  "Tests decode a few literal headers; indentation, nesting, escapes, quotes and fence lengths combine without bound.",
  ["context/utils.py", "utils/string.py", "context/context.py"],
  [("load_from_string", "context/utils.py"), ("str_to_dict, str_to_list, strip_end_quotes", "utils/string.py"), ("load", "context/context.py")])
p("C06", "Labels are unique, in document order and correctly numbered",
  "Within a project a label id can be registered once per document: a second registration is rejected and leaves the registry unchanged. After registration labels appear in document order and, within a document, in order of creation, labels of documents no longer in the project are gone, and each label's number for each of its kinds counts the labels of that kind since the last label that resets it. Looking a label up by id or kind returns exactly the matching labels, or an error when there is none.",
  ["inputs", "histories"], "all sequences of label registrations, document resets and lookups over any document tree",
  "Tests register a few labels in two or three documents; counts and order depend on the whole registration history.",
  ["label_manager/label_manager.py", "label_manager/register_orders.py", "label_manager/receivers.py", "label_manager/types/label.py"],
  [("add_label, reset, get_label, get_labels_by_kind, get_labels_by_id", "label_manager/label_manager.py"), ("register_orders, reorder_and_purge_labels_by_doc_id", "label_manager/register_orders.py")],
  state=[("labels", "registry keyed by (document id, label id)", "label_manager/label_manager.py")])
p("C07", "The document tree holds each included document once, in include order",
  "The documents of a project are the root followed depth-first by the documents named in each header, in include order, each source file appearing exactly once even when included repeatedly, by several documents, or circularly. Reloading after an include list changed gives the same tree as loading afresh, keeping the document objects that are still included. Document ids are unique across the tree or an error is raised.",
  ["inputs", "histories"], "all include graphs and all edits of include lists between loads",
  "Tests load trees of two or three files; cycles, diamonds and edits combine without bound.",
  ["document/document.py", "document/document_context.py"],
  [("load_subdocuments, documents_dict, documents_list, documents_by_id", "document/document.py"), ("includes", "document/document_context.py")])
p("C08", "A build step is skipped exactly when neither inputs nor output changed",
  "A build is reported as needed when an input or the output file is missing, or when the content of an input or of the output differs from that recorded at the last completed build from these input contents, and as not needed otherwise. The content fingerprint does not depend on read-chunk size, file name, or the order of the inputs, and differs when any input's content differs; for PDF files only the volatile creation-date, modification-date and id lines are disregarded.",
  ["inputs", "histories"], "all inputs, outputs, file contents, chunk sizes and histories of builds and edits",
  "Tests change one small file once; chunk boundaries, line structure and histories of edits are unbounded.",
  ["builders/deciders/decider.py", "builders/deciders/md5decider.py", "builders/deciders/utils_hash.py"],
  [("build_needed", "builders/deciders/md5decider.py"), ("hash_items, hash_file, line_splitter, hash_pdf", "builders/deciders/utils_hash.py")],
  state=[("db", "fingerprint of inputs to fingerprint of output", "builders/deciders/md5decider.py")])
p("C09", "Composite builds run every step, in order, and report status truthfully",
  "A composite build is done exactly when all its steps are done, and otherwise reports the status of its first unfinished step. A sequential build never starts a step before every earlier step is done, a parallel build starts every step that is ready, and a step that is done is never started again. Completing a build runs each step that was not done exactly once, unless a step can neither proceed nor become done, and flattening a build lists every nested step exactly once, parents before children in order.",
  ["inputs", "schedules", "histories"], "all trees of build steps and all ways the steps' statuses can evolve between calls",
  "Tests use two or three concrete steps that finish at once; the ordering must hold for every tree and every status evolution.",
  ["builders/composite_builders/composite_builder.py", "builders/composite_builders/sequential_builder.py", "builders/composite_builders/parallel_builder.py"],
  [("status, build, flatten, futures", "builders/composite_builders/composite_builder.py"), ("chain_subbuilders", "builders/composite_builders/sequential_builder.py"), ("build_needed", "builders/composite_builders/parallel_builder.py")])
p("C10", "Previous/next navigation links are mutually consistent for every target",
  "For every target of the project, a document rendered to that target links to the documents immediately before and after it, in document order, among those rendered to the same target; the link goes to that document's first heading and is absent when it has none. The first document has no previous and the last no next link. After the document tree changes no stale link remains. Links to other formats of the same page point to that format's file relative to the page, and are empty when that format is not produced.",
  ["inputs", "histories"], "all document trees, target sets per document, and changes of the tree",
  "Tests use two or three documents with identical targets; differing target sets and tree edits are not covered.",
  ["tags/navigation.py"], [("set_navigation_labels, other_relpath", "tags/navigation.py")])
p("C11", "Cross references and output paths resolve to the file they name",
  "Resolving a relative link from the page it is written on gives exactly the output file of the referenced document for that target, with the label's id as anchor, and a reference inside one document is an anchor on the same page. An output path is always its root, target folder and subpath in that order, and renaming it (name, suffix, appended text, subpath) changes only the named part. File lookup returns the first existing candidate in search-path order.",
  ["inputs", "configurations"], "all source and output paths, targets, document locations and search paths",
  "Tests compare a few literal links; correctness depends on the relative position of any two documents.",
  ["paths/paths.py", "paths/utils.py", "tags/ref.py", "builders/utils.py"],
  [("get_url, use_name, use_suffix, use_subpath", "paths/paths.py"), ("rename, find_file", "paths/utils.py"), ("url, document", "tags/ref.py")])
p("C12", "Rendered LaTeX and HTML contain only allowed commands and attributes",
  "Only LaTeX commands and environments that are allowed are written, always with all their required arguments in the prescribed order and only allowed options; anything else raises a formatting error. Only allowed HTML elements and attributes are written (an unknown element becomes a span naming it in its class unless a class was given), and the text content of an element that can have content is escaped and otherwise preserved in order. Neither the attributes handed to the LaTeX and HTML writers nor a tag's own attributes are modified by rendering.",
  ["inputs"], "all element names, attribute collections and contents",
  "Tests render fixed samples; the guarantee is about every name, attribute set and content.",
  ["formats/tex.py", "formats/xhtml.py"],
  [("tex_cmd, tex_env, tex_verb", "formats/tex.py"), ("xhtml_tag, xhtml_entity, xhtml_list", "formats/xhtml.py")])
p("C13", "Sequence and mapping utilities keep every element exactly as specified",
  "De-duplicating keeps the first occurrence of each element in order; finding duplicates returns exactly the elements that occur more than once; flattening lists every leaf in order; chunking splits a sequence into consecutive pieces of the given size that join back to it; transposing swaps rows and columns; unwrapping removes only single-element nesting. Looking up the most specific key tries longer keys before shorter and target-suffixed before plain, within one mapping before the next. Arguments are not modified.",
  ["inputs"], "all sequences, nestings, chunk sizes, key tuples and mappings",
  "Tests use one or two literal lists per function; the statements are universally quantified over sequences.",
  ["utils/list.py", "utils/dict.py"],
  [("uniq, dupes, flatten, chunks, transpose, unwrap, md5hash", "utils/list.py"), ("find_entry", "utils/dict.py")])
p("C14", "Signals call every receiver once, in order, and return aligned results",
  "Emitting a signal calls each connected, still-alive receiver exactly once in increasing order with the emitter's arguments, and returns one result per connected slot in that order, nothing for a receiver that is gone. Connecting to an occupied order raises an error and leaves the connections unchanged. Requesting a signal by name always yields the same signal, and resetting disconnects every receiver.",
  ["inputs", "histories"], "all sequences of connects, emits, receiver deletions and resets",
  "Tests connect two receivers; order and alignment must hold for any set of connections and deletions.",
  ["signals/signals.py"], [("connect, connect_via, emit, receivers_dict, reset", "signals/signals.py"), ("Namespace.signal", "signals/signals.py")],
  state=[("receivers", "order to receiver", "signals/signals.py")])
p("C15", "Paragraph grouping keeps all content and breaks only at blank lines",
  "Grouping content into paragraphs keeps every tag and every non-blank piece of text in order and drops only the blank lines that separate paragraphs and groups of nothing but whitespace. Content is split into different paragraphs exactly at blank lines and around elements that may not be in a paragraph, and such an element is never placed inside one. A tag alone in a paragraph is marked as a block, and a tag accompanied by other elements as inline.",
  ["inputs"], "all content strings and lists of strings and tags",
  "Tests group a few literal contents; any sequence of text, blank lines and tags must conserve content.",
  ["tags/receivers/paragraphs.py"],
  [("group_paragraphs, clean_paragraphs, assign_paragraph_roles, process_paragraph_tags", "tags/receivers/paragraphs.py")])
p("C16", "Typography changes only dashes, quotes and the space around dashes",
  "Typographic processing replaces only double and triple hyphens (with surrounding space) and straight quotes by their typographic forms and leaves every other character in place and in order; processing twice gives the same result as once. It reaches every text in the content except inside tags that opt out, whose content stays verbatim, and keeps the structure of tags and lists.",
  ["inputs"], "all texts and tag trees",
  "Tests check a few sentences; the claim is about every text and nesting.",
  ["tags/receivers/typography.py"], [("process_tag_typography, process_typography", "tags/receivers/typography.py")])
p("C17", "Copying or walking a tag tree covers all of it and shares nothing mutable",
  "A copied tag is equal to the original in name, attributes and content at every level, and changing the copy's content or attributes at any level, or moving it to another context, never changes the original, nor vice versa. Flattening a tag lists it and every nested tag in document order; rendering and replacing tags reaches every nested tag and keeps everything else in order.",
  ["inputs", "histories"], "all tag trees and subsequent modifications",
  "Tests copy one or two small tags; sharing at some depth shows only for particular shapes.",
  ["tags/utils.py", "tags/tag.py"],
  [("copy_tag, replace_context, format_content, repl_tags", "tags/utils.py"), ("copy, flatten, __eq__", "tags/tag.py")])
p("C18", "Lists keep every item in order at its nesting level",
  "A text list yields one item per bullet line, in order, with the text up to the next bullet and continuation lines joined, at a non-negative level, the smallest level being zero, that grows with the indentation (in spaces) of its bullet. Nested rendering keeps the items in order and places each one inside the list of the nearest preceding item of smaller level.",
  ["inputs"], "all list texts, indentations and item counts",
  "Tests parse a few fixed lists; levels may jump up and down arbitrarily.",
  ["tags/list.py", "formats/xhtml.py"], [("parse_string_list, clean_string_list, normalize_levels", "tags/list.py"), ("xhtml_list", "formats/xhtml.py")])
p("C19", "Each label knows exactly the headings that enclose it",
  "After registration each content label refers to the nearest preceding heading of each rank (part, chapter, section, subsection, subsubsection) not cut off by a later heading of a higher rank, and to none when there is none, whatever it referred to before. Its composite number is the dot-joined non-empty numbers of those headings from the highest rank to the lowest.",
  ["inputs", "histories"], "all sequences of labels and repeated registrations after edits",
  "Tests register one fixed document once; stale pointers only show on re-registration after an edit.",
  ["label_manager/register_content_labels.py", "label_manager/types/content_label.py", "utils/classes.py"],
  [("register_content_labels", "label_manager/register_content_labels.py"), ("tree_number, get_label_number", "label_manager/types/content_label.py"), ("weakattr", "utils/classes.py")])
p("C20", "Dependency checks are satisfied exactly when their logic says so",
  "An 'any' group is available exactly when at least one member is, an 'all' group exactly when every member is, and an optional group always; groups nest arbitrarily and an unchecked dependency counts as missing. Listing a group yields every nested member once in order with its depth. A requirement text is decoded into name, comparison and numeric version, and is met exactly by versions for which the comparison holds component-wise, missing components counting as zero.",
  ["inputs"], "all nested groups, availability assignments and requirement strings",
  "Tests check the shipped dependency lists on one machine; the logic must hold for every nesting and assignment.",
  ["checkers/types.py", "checkers/utils.py", "checkers/checker.py"],
  [("Any/All/Optional.available, flatten, keys, __getitem__", "checkers/types.py"), ("name_and_version", "checkers/utils.py")])
p("C21", "Served files stay inside the project",
  "The preview server returns only files that lie inside a project's rendered output or the application's own static files, whatever path a request names.",
  ["inputs"], "all request paths", "Tests request existing pages only.",
  ["server/handlers/static.py", "server/handlers/pygmentize.py", "server/urls.py"], [("static and source handlers", "server/urls.py")])
p("C22", "Concurrent external builds never corrupt or lose an output",
  "However the external programs of a parallel build are interleaved, delayed or killed, each output file is either absent, its previous version or the complete new version, and the build terminates.",
  ["schedules", "fault_sequences", "crash_points"], "all interleavings, timeouts and crashes of external programs",
  "Tests run a couple of programs that succeed.",
  ["builders/executor.py", "builders/builder.py"], [("Executor.run", "builders/executor.py"), ("Builder.build, status", "builders/builder.py")])
p("C23", "Typeset output renders the source faithfully",
  "The PDF, SVG and EPUB files produced from a project display the text, equations and figures of its sources.",
  ["inputs", "configurations"], "all projects and installed tool versions", "Tests compare a few files produced by the tools that happen to be installed.",
  ["builders/pdflatex.py", "builders/pdf2svg.py", "builders/xhtml2epub.py"], [("external converters", "builders/")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
