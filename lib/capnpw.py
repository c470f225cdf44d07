"""Minimal Cap'n Proto writer (packed stream, one segment), driven by the frozen
schema layout in /verif/schema/layout.txt (the on-disk cache format at the pinned commit)."""
import os, re, struct

_LAYOUT = {}


def _load():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "schema", "layout.txt")
    scope, stack = None, []
    for line in open(path):
        m = re.match(r"## (\w+)\.capnp", line)
        if m:
            scope = m.group(1)
            stack = []
            continue
        s = line.strip()
        m = re.match(r"struct (\w+) @0x[0-9a-f]+ \{\s*# (\d+) bytes, (\d+) ptrs", s)
        if m:
            name = f"{scope}.{m.group(1)}"
            _LAYOUT[name] = {"bytes": int(m.group(2)), "ptrs": int(m.group(3)), "fields": {}}
            stack.append(name)
            continue
        m = re.match(r"(enum|struct) (\w+)", s)
        if m and s.endswith("{"):
            stack.append(None)
            if m.group(1) == "enum":
                _LAYOUT[f"{scope}.enum.{m.group(2)}"] = {"enum": {}}
                stack[-1] = f"{scope}.enum.{m.group(2)}"
            continue
        m = re.match(r"enum (\w+) @", s)
        if s.startswith("}"):
            if stack:
                stack.pop()
            continue
        m = re.match(r"(\w+) @(\d+) :([^;]+?)(?: = [^;]*)?;\s*# (ptr\[(\d+)\]|bits\[(\d+), (\d+)\))", s)
        if m and stack and stack[-1]:
            f = {"type": m.group(3).strip()}
            if m.group(5) is not None:
                f["ptr"] = int(m.group(5))
            else:
                f["bit"] = int(m.group(6))
                f["size"] = int(m.group(7)) - int(m.group(6))
            _LAYOUT[stack[-1]]["fields"][m.group(1)] = f


_load()


class Msg:
    def __init__(self):
        self.w = bytearray(8)

    def alloc(self, nbytes):
        n = (nbytes + 7) // 8 * 8
        off = len(self.w)
        self.w.extend(b"\0" * n)
        return off

    def _setptr(self, at, target, lo_type, hi):
        off = (target - at - 8) // 8
        self.w[at:at + 8] = struct.pack("<II", ((off & 0x3FFFFFFF) << 2) | lo_type, hi)

    def struct_body(self, lay, off, val, scope):
        L = _LAYOUT[lay]
        pbase = off + (L["bytes"] + 7) // 8 * 8
        for k, v in val.items():
            f = L["fields"][k]
            if v is None:
                continue
            if "ptr" in f:
                self.pointer(pbase + 8 * f["ptr"], f["type"], v, scope)
            else:
                t, byte = f["type"], off + f["bit"] // 8
                if t == "Float32":
                    self.w[byte:byte + 4] = struct.pack("<f", v)
                else:
                    n = f["size"] // 8
                    self.w[byte:byte + n] = (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, "little")

    def pointer(self, at, typ, v, scope):
        if typ in ("Text", "Data"):
            b = v if isinstance(v, bytes) else v.encode()
            if typ == "Text":
                b += b"\0"
            o = self.alloc(len(b))
            self.w[o:o + len(b)] = b
            self._setptr(at, o, 1, (len(b) << 3) | 2)
            return
        m = re.match(r"List\((.+)\)$", typ)
        if m:
            et = m.group(1)
            if et == "Text":
                o = self.alloc(8 * len(v))
                self._setptr(at, o, 1, (len(v) << 3) | 6)
                for i, x in enumerate(v):
                    self.pointer(o + 8 * i, "Text", x, scope)
            elif et in ("Int8", "Int16", "Int32"):
                n = {"Int8": 1, "Int16": 2, "Int32": 4}[et]
                o = self.alloc(n * len(v))
                self._setptr(at, o, 1, (len(v) << 3) | {1: 2, 2: 3, 4: 4}[n])
                for i, x in enumerate(v):
                    self.w[o + n * i:o + n * i + n] = (int(x) & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
            else:
                lay = resolve(et, scope)
                sc = lay.split(".")[0]
                L = _LAYOUT[lay]
                dw, pw = (L["bytes"] + 7) // 8, L["ptrs"]
                size = 8 * (dw + pw)
                o = self.alloc(8 + size * len(v))
                self._setptr(at, o, 1, (((dw + pw) * len(v)) << 3) | 7)
                self.w[o:o + 8] = struct.pack("<IHH", len(v) << 2, dw, pw)
                for i, x in enumerate(v):
                    self.struct_body(lay, o + 8 + size * i, x, sc)
            return
        raise ValueError(typ)


def resolve(name, scope):
    name = name.split(".")[-1]
    if f"{scope}.{name}" in _LAYOUT:
        return f"{scope}.{name}"
    c = [k for k in _LAYOUT if k.endswith("." + name) and ".enum." not in k]
    low = name[0].lower() + name[1:]
    for k in c:
        if k.split(".")[0] == low:
            return k
    raise KeyError((name, scope, c))


def pack(words):
    out = bytearray()
    n = len(words) // 8
    i = 0
    while i < n:
        w = words[8 * i:8 * i + 8]
        tag = 0
        nz = bytearray()
        for b in range(8):
            if w[b]:
                tag |= 1 << b
                nz.append(w[b])
        out.append(tag)
        out += nz
        i += 1
        if tag == 0:
            k = 0
            while i < n and k < 255 and not any(words[8 * i:8 * i + 8]):
                i += 1
                k += 1
            out.append(k)
        elif tag == 0xFF:
            k = 0
            s = i
            while i < n and k < 255 and words[8 * i:8 * i + 8].count(0) < 2:
                i += 1
                k += 1
            out.append(k)
            out += words[8 * s:8 * i]
    return bytes(out)


def message(root, val):
    """root like 'node.Node' (file.struct)"""
    m = Msg()
    L = _LAYOUT[root]
    dw, pw = (L["bytes"] + 7) // 8, L["ptrs"]
    o = m.alloc(8 * (dw + pw))
    m._setptr(0, o, 0, dw | (pw << 16))
    m.struct_body(root, o, val, root.split(".")[0])
    head = struct.pack("<II", 0, len(m.w) // 8)
    return pack(head + bytes(m.w))
