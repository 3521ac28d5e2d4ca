"""A small reader of 64-bit little-endian relocatable objects: symbols, contents and relocations."""
import struct

class Obj:
    def __init__(self, path):
        b = self.b = open(path, "rb").read()
        shoff, = struct.unpack_from("<Q", b, 40)
        n, = struct.unpack_from("<H", b, 60)
        self.sec = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + 64 * i) for i in range(n)]
        self.sym, self.rel = [], {}
        for i, s in enumerate(self.sec):
            if s[1] == 2:
                st = self.sec[s[6]]
                for o in range(s[4], s[4] + s[5], 24):
                    nm, info, other, shn, val, sz = struct.unpack_from("<IBBHQQ", b, o)
                    e = b.index(b"\0", st[4] + nm)
                    self.sym.append((b[st[4] + nm:e].decode("latin1"), info >> 4, info & 15, shn, val, sz))
        for i, s in enumerate(self.sec):
            if s[1] == 4:
                for o in range(s[4], s[4] + s[5], 24):
                    off, info, add = struct.unpack_from("<QQq", b, o)
                    self.rel.setdefault(s[7], {})[off] = (info & 0xffffffff, self.sym[info >> 32], add)
        self.at = {}
        for y in self.sym:
            if y[2] in (1, 2, 6) and y[0]: self.at.setdefault((y[3], y[4]), y[0])

    def data(self, y):
        """initial contents and pointers of a defined object"""
        s = self.sec[y[3]]
        raw = bytes(y[5]) if s[1] == 8 else self.b[s[4] + y[4]:s[4] + y[4] + y[5]]
        ptr = []
        for off, (t, z, add) in sorted(self.rel.get(y[3], {}).items()):
            if y[4] <= off < y[4] + y[5]:
                if z[2] == 3 or z[0].startswith("."):      # relative to a section or an assembler label
                    base = 0 if z[2] == 3 else z[4]
                    ptr.append((off - y[4], self.at.get((z[3], base + add), "?"), 0))
                else:
                    ptr.append((off - y[4], z[0], add))
        return raw, ptr
