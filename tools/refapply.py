"""Applies an edit whose old text may leave out comment lines and blank lines."""


def apply(path, old, new):
    s = open(path).read()
    if s.count(old) == 1:
        open(path, "w").write(s.replace(old, new))
        return None
    cut = s.find("#[cfg(test)]")
    body = s if cut < 0 else s[:cut]
    norm, at, pos = [], [], 0
    for line in body.splitlines(True):
        t = line.strip()
        if t and not t.startswith("//"):
            norm.append(line)
            at.extend(range(pos, pos + len(line)))
        pos += len(line)
    norm = "".join(norm)
    old = "".join(l for l in old.splitlines(True) if l.strip())
    n = norm.count(old)
    if n != 1:
        return "%s: %d matches for %r" % (path, n, old[:60])
    i = norm.index(old)
    open(path, "w").write(s[:at[i]] + new + s[at[i + len(old) - 1] + 1:])
    return None
