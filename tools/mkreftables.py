#!/usr/bin/env python3
"""Writes sim/ref.tar.xz: what the character set tables have to say.

The tables of the pinned tree (with the repairs recorded in known-findings.txt), comments stripped; every entry of a set
that Python's codecs or the C library's iconv know was compared with them (run with --compare to repeat that; what
differs is a difference between published versions of a standard, e.g. ICU's and glibc's IBM-930).  gb4 lists the four
byte sequences of GB 18030 as Python decodes them."""
import ctypes, io, os, sys, tarfile, glob, lzma
R = os.environ.get("SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rows(f):
    for l in open(f, errors="replace"):
        if l[0] == "#":
            continue
        w = l.split("#")[0].split()
        if len(w) == 2 and w[0] not in ("*", ","):
            yield w


def gb4():
    out, cur = [], None
    for i in list(range(0, 39420)) + list(range(189000, 189000 + 0x100000)):
        b = bytes([0x81 + i // 12600, 0x30 + i // 1260 % 10, 0x81 + i // 10 % 126, 0x30 + i % 10])
        try:
            u = ord(b.decode("gb18030"))
        except UnicodeDecodeError:
            cur = None
            continue
        if cur and cur[0] + cur[2] == i and cur[1] + cur[2] == u:
            cur[2] += 1
        else:
            cur = [i, u, 1]
            out.append(cur)
    return "".join("%d %X %d\n" % tuple(c) for c in out)


def compare():
    py = {n: n.strip("_").lower().replace("-", "_") for n in "_CP1251 _CP1252 _CP1253 _CP1254 _CP1255 _CP1256 _CP1257 _CP1258 _CP874 _CP932 _CP936 _CP949 _CP950 _GBK _GB18030 _SHIFT-JIS".split()}
    py.update({"_HKSCS2004": "big5hkscs", "_HKSCS2001": "big5hkscs", "IBM-37": "cp037", "_ISO-8859-1": "latin1", "_BIG5-ETEN": "big5", "_BIG5-2003": "big5", "_BIG5E": "big5", "_UAO241": "big5", "_UAO250": "big5"})
    ic = {"IBM-%d" % n: "IBM%d" % n for n in (930, 933, 935, 937, 939)}
    ic.update({"_JIS0208": "EUC-JP", "_JIS0212": "EUC-JP", "_GB2312": "GB2312"})
    libc = ctypes.CDLL(None)
    libc.iconv_open.restype = ctypes.c_void_p
    libc.iconv.argtypes = [ctypes.c_void_p] + [ctypes.c_void_p] * 4
    libc.iconv.restype = ctypes.c_size_t

    def iconv(cd, b):
        i = ctypes.create_string_buffer(b, len(b)); o = ctypes.create_string_buffer(64)
        ip = ctypes.c_void_p(ctypes.addressof(i)); op = ctypes.c_void_p(ctypes.addressof(o)); il = ctypes.c_size_t(len(b)); ol = ctypes.c_size_t(64)
        libc.iconv(cd, None, None, None, None)
        r = libc.iconv(cd, ctypes.byref(ip), ctypes.byref(il), ctypes.byref(op), ctypes.byref(ol))
        return None if r == ctypes.c_size_t(-1).value else o.raw[:64 - ol.value].decode("utf-16le")
    for n in list(py) + list(ic):
        same, diff, unk = 0, [], 0
        cd = libc.iconv_open(b"UTF-16LE", ic[n].encode()) if n in ic else None
        for k, v in rows(R + "/modules/from/" + n + ".txt"):
            if "*" in k or v.lstrip("?") == "":
                continue
            b = bytes.fromhex(k); u = "".join(chr(int(x[2:], 16)) for x in v.lstrip("?").split(","))
            if n in py:
                try: r = b.decode(py[n])
                except UnicodeDecodeError: r = None
            elif b in (b"\x0e", b"\x0f"):
                continue
            else:
                r = iconv(cd, b"\x0e" + b if n[0] == "I" and len(b) == 2 else bytes(x | 128 for x in b) if n == "_JIS0208" or n == "_GB2312" else b"\x8f" + bytes(x | 128 for x in b) if n == "_JIS0212" else b)
            if r is None: unk += 1
            elif r == u: same += 1
            else: diff.append((k, u, r))
        print("%-12s same %6d  different %4d  unknown to the reference %5d" % (n, same, len(diff), unk), " ".join("%s:%s/%s" % (k, *("+".join("%X" % ord(c) for c in x) for x in (u, r))) for k, u, r in diff[:4]))


def main():
    if "--compare" in sys.argv:
        return compare()
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=tarfile.USTAR_FORMAT) as t:
        def put(name, text):
            i = tarfile.TarInfo(name); d = text.encode("utf8", "replace"); i.size = len(d); i.mtime = 0
            t.addfile(i, io.BytesIO(d))
        names = []
        for kind in ("from", "inter", "to"):
            for f in sorted(glob.glob(R + "/modules/%s/*.txt" % kind)):
                if "/ALIAS-" in f:  # internal
                    continue
                r = list(rows(f))
                if r and not (len(r) == 1 and "*" in r[0][0]):
                    names.append("%s/%s" % (kind, os.path.basename(f)[:-4]))
                    put("ref/%s/%s" % (kind, os.path.basename(f)[:-4]), "".join("%s\t%s\n" % tuple(w) for w in r))
            al = [l.split() for l in open(R + "/modules/%s/alias" % kind) if l[0] != "#"]
            put("ref/%s.alias" % kind, "".join("%s\t%s\n" % tuple(w) for w in al if len(w) == 2))
        put("ref/gb4", gb4())
        put("ref/names", "\n".join(names) + "\n")
    open(HERE + "/sim/ref.tar.xz", "wb").write(lzma.compress(buf.getvalue(), preset=9 | lzma.PRESET_EXTREME))


main()
