"""Canonical dumps of the parser's trees (all public fields, lines optional)."""


def dump(a, lines=False):
    if a is None or isinstance(a, (str, int, bool, float)):
        return a
    if isinstance(a, (list, tuple)):
        return [dump(x, lines) for x in a]
    if isinstance(a, dict):
        return {str(k): dump(v, lines) for k, v in sorted(a.items(), key=lambda kv: str(kv[0]))}
    d = {"class": type(a).__name__}
    for k, v in sorted(vars(a).items()):
        if k.startswith("_"):
            continue
        if k in ("lineno", "end_lineno"):
            if lines:
                d[k] = v
            continue
        d[k] = dump(v, lines)
    return d


def diff(x, y, path=""):
    if isinstance(x, dict) and isinstance(y, dict):
        if x.get("class") != y.get("class"):
            return "%s: %s vs %s" % (path, x.get("class"), y.get("class"))
        for k in sorted(set(x) | set(y)):
            r = diff(x.get(k), y.get(k), path + "." + k)
            if r:
                return r
        return None
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return "%s: %d vs %d elements (%s | %s)" % (path, len(x), len(y), str(x)[:200], str(y)[:200])
        for i, (a, b) in enumerate(zip(x, y)):
            r = diff(a, b, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if x != y or type(x) != type(y):
        return "%s: %s vs %s" % (path, str(x)[:300], str(y)[:300])
    return None


def flatten_decls(d):
    """dump with declaration lists split: `wire a, b;` and `wire a; wire b;` are the same list of declarations"""
    if isinstance(d, list):
        out = []
        for x in d:
            y = flatten_decls(x)
            if isinstance(y, dict) and y.get("class") == "Decl":
                out.extend(y["list"])
            else:
                out.append(y)
        return out
    if isinstance(d, dict):
        d = {k: flatten_decls(v) for k, v in d.items()}
        for k in ("statement", "true_statement", "false_statement"):
            x = d.get(k)
            if isinstance(x, dict) and x.get("class") == "Decl":
                d[k] = {"class": "Block", "scope": None, "statements": x["list"]}
        return d
    return d


def norm_blocks(d):
    """an unnamed begin/end around one statement (not a declaration) groups nothing"""
    if isinstance(d, list):
        return [norm_blocks(x) for x in d]
    if isinstance(d, dict):
        d = {k: norm_blocks(v) for k, v in d.items()}
        if d.get("class") == "Block" and d.get("scope") is None and isinstance(d.get("statements"), list) \
                and len(d["statements"]) == 1:
            return d["statements"][0]
    return d
