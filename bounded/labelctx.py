class Root:
    doc_ids = ()


class Ctx(dict):
    """the part of a context that the label manager relies on"""
    root_document = None

    def is_valid(self, *keys, **kw):
        return all(self.get(k) is not None for k in keys)


def mk(doc_ids, resets=None, label_sep=None):
    root = Root()
    root.doc_ids = list(doc_ids) if doc_ids is not None else None
    c = Ctx(doc_id=doc_ids[0] if doc_ids else "d1")
    c.root_document = root if doc_ids is not None else None
    if resets is not None:
        c["label_resets"] = resets
    if label_sep:
        c["label_sep"] = label_sep
    c._root = root
    return c
