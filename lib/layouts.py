"""Parses clang -fdump-record-layouts output: class name -> (size, field tree)."""
import re


def norm(t):
    """Canonical C++ type name shared by layouts and demangled names."""
    t = re.sub(r"\b(class|struct|enum|const|volatile)\s+", "", t)
    t = re.sub(r"\s+const\b", "", t)
    t = t.replace("_Bool", "bool").replace("> >", ">>").replace("> >", ">>")
    t = re.sub(r"pyvrp::Measure<[^<>]*>", "Measure", t)
    t = re.sub(r"\bsize_t\b", "unsigned long", t)
    t = re.sub(r"\bu?int64_t\b", lambda m: "unsigned long" if m.group(0)[0] == "u" else "long", t)
    t = re.sub(r"\buint32_t\b", "unsigned int", t)
    t = re.sub(r"\s*([&*])", r"\1", t)
    t = re.sub(r"std::vector<(.+), std::allocator<\1>>", r"std::vector<\1>", t)
    while True:
        n = re.sub(r"std::vector<([^<>]+), std::allocator<\1>>", r"std::vector<\1>", t)
        if n == t:
            break
        t = n
    return t.strip()


class Field:
    __slots__ = ("off", "type", "name", "kids")
    def __repr__(self):
        return f"{self.off}:{self.type} {self.name}"


class Record:
    __slots__ = ("name", "size", "kids")
    def field(self, path):
        kids, off, f = self.kids, 0, None
        for p in path.split("."):
            f = _find(kids, p)
            if f is None:
                raise KeyError(f"{self.name} has no field {path}")
            kids = f.kids
        return f
    def leaf_at(self, off):
        """Innermost interesting field (vector or scalar) that covers this offset."""
        kids, best = self.kids, None
        while True:
            c = [k for k in kids if k.off <= off and not k.name.endswith("(empty)")]
            c = [k for k in c if k.off == max(x.off for x in c)] if c else []
            if not c:
                return best
            best = c[-1]
            if best.type.startswith("std::vector<") or not best.kids:
                return best
            kids = best.kids


def _find(kids, name):
    for k in kids:
        if k.name == name:
            return k
    for k in kids:   # bases
        if k.name.startswith("(base)") or k.name.endswith("base)"):
            r = _find(k.kids, name)
            if r:
                return r
    return None


def parse(path):
    recs = {}
    cur, stack = None, []
    for line in open(path):
        if line.startswith("*** Dumping"):
            cur, stack = None, []
            continue
        m = re.match(r"\s*(\d+)(?::[\d-]+)? \|(\s+)(.*)$", line)
        if m:
            off, depth, text = int(m.group(1)), len(m.group(2)) // 2, m.group(3)
            if cur is None:
                cur = Record()
                cur.name = norm(text.replace(" (empty)", ""))
                cur.kids, cur.size = [], None
                stack = [(depth, cur)]
                continue
            f = Field()
            f.off, f.kids = off, []
            mm = re.match(r"(.*?)\s*((?:\((?:virtual |primary )*base\)(?: \(empty\))?)|(?:\w+(?: \(empty\))?)|\(vtable pointer\))$", text)
            if mm:
                f.type, f.name = norm(mm.group(1)), mm.group(2)
            else:
                f.type, f.name = norm(text), ""
            while stack and stack[-1][0] >= depth:
                stack.pop()
            stack[-1][1].kids.append(f)
            stack.append((depth, f))
            continue
        m = re.match(r"\s*\| \[sizeof=(\d+)", line)
        if m and cur is not None:
            cur.size = int(m.group(1))
            if cur.name not in recs:
                recs[cur.name] = cur
    for r in recs.values():
        _qualify(recs, r.kids, r.name)
    return recs


def _qualify(recs, kids, owner):
    """Qualifies the targets of pointers and references by the scope of the class that declares the field."""
    for k in kids:
        m = re.match(r"([\w:]+)([*&]+)$", k.type)
        if m and m.group(1) not in recs:
            scope = re.sub(r"<.*", "", owner).split("::")
            while scope:
                if "::".join(scope + [m.group(1)]) in recs:
                    k.type = "::".join(scope + [m.group(1)]) + m.group(2)
                    break
                scope.pop()
        _qualify(recs, k.kids, k.type if k.type in recs else owner)


PRIM = {"long": 8, "unsigned long": 8, "int": 4, "unsigned int": 4, "bool": 1, "double": 8, "char": 1,
        "Measure": 8, "unsigned char": 1, "uint32_t": 4, "int64_t": 8, "std::bitset<64>": 8, "std::bitset<64ul>": 8}


def sizeof(recs, t):
    t = norm(t)
    if t.endswith("*") or t.endswith("&"):
        return 8
    if t in PRIM:
        return PRIM[t]
    if t.startswith("std::vector<"):
        return 24
    if t in recs:
        return recs[t].size
    raise KeyError(f"size of {t}")
