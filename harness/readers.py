#!/usr/bin/env python3
"""Opens archives of a directory with independent readers and compares them with what was put there.

<dir>/N.zip, <dir>/N.json = {"tame": bool, "entries": [[name hex, length]...]}, <dir>/N.bin = concatenated contents
Prints one line per problem: "BAD N reader: message"; last line "DONE count readers".
"""
import ctypes, ctypes.util, json, os, shutil, subprocess, sys, zipfile

d = sys.argv[1]
use_java = len(sys.argv) > 2 and sys.argv[2] == "java"
nums = sorted(int(f[:-4]) for f in os.listdir(d) if f.endswith(".zip"))
readers = {"zipfile": 0}


def expected(n):
    meta = json.load(open(f"{d}/{n}.json"))
    blob = open(f"{d}/{n}.bin", "rb").read()
    out, o = [], 0
    for name, length in meta["entries"]:
        out.append((bytes.fromhex(name), blob[o:o + length]))
        o += length
    return meta["tame"], out


def bad(n, reader, msg):
    print(f"BAD {n} {reader}: {msg}")


def with_zipfile(n, exp):
    with zipfile.ZipFile(f"{d}/{n}.zip") as z:
        infos = z.infolist()
        names = [i.orig_filename.encode("utf-8") for i in infos]
        if names != [e[0] for e in exp]:
            return bad(n, "zipfile", f"names {names[:5]}, expected {[e[0] for e in exp][:5]}")
        for i, (name, data) in zip(infos, exp):
            if i.compress_type != zipfile.ZIP_STORED:
                return bad(n, "zipfile", f"{name}: compressed")
            if i.file_size != len(data) or i.compress_size != len(data):
                return bad(n, "zipfile", f"{name}: sizes {i.file_size} {i.compress_size}, expected {len(data)}")
            got = z.open(i).read()
            if got != data:
                return bad(n, "zipfile", f"{name}: content differs")
            import zlib
            if i.CRC != zlib.crc32(data):
                return bad(n, "zipfile", f"{name}: CRC {i.CRC:08x}")
    readers["zipfile"] += 1


LA = None
try:
    LA = ctypes.CDLL("libarchive.so.13")
    for f in ("archive_read_new", "archive_error_string", "archive_entry_pathname_utf8"):
        getattr(LA, f).restype = ctypes.c_void_p
    LA.archive_entry_size.restype = ctypes.c_int64
    LA.archive_read_data.restype = ctypes.c_ssize_t
    readers["libarchive"] = 0
except OSError:
    LA = None


def with_libarchive(n, exp):
    a = ctypes.c_void_p(LA.archive_read_new())
    LA.archive_read_support_format_zip_seekable(a)

    def err():
        s = LA.archive_error_string(a)
        return ctypes.string_at(s).decode("utf-8", "replace") if s else "?"

    try:
        if LA.archive_read_open_filename(a, f"{d}/{n}.zip".encode(), ctypes.c_size_t(10240)) != 0:
            return bad(n, "libarchive", "open: " + err())
        got = []
        e = ctypes.c_void_p()
        while True:
            r = LA.archive_read_next_header(a, ctypes.byref(e))
            if r == 1:
                break
            if r != 0:
                return bad(n, "libarchive", f"header {len(got)}: {r} {err()}")
            p = LA.archive_entry_pathname_utf8(e)
            name = ctypes.string_at(p) if p else b""
            data = bytearray()
            buf = ctypes.create_string_buffer(65536)
            while True:
                k = LA.archive_read_data(a, buf, ctypes.c_size_t(65536))
                if k == 0:
                    break
                if k < 0:
                    return bad(n, "libarchive", f"data of {name}: {k} {err()}")
                data += buf.raw[:k]
            got.append((name, bytes(data)))
        # libarchive lists entries by their position in the file
        if got != exp:
            return bad(n, "libarchive", f"{len(got)} entries read differ from {len(exp)} expected")
        readers["libarchive"] += 1
    finally:
        LA.archive_read_free(a)


UNZIP = shutil.which("unzip")


def with_unzip(n, exp):
    p = subprocess.run([UNZIP, "-tqq", f"{d}/{n}.zip"], capture_output=True, stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        return bad(n, "unzip", f"exit {p.returncode}: {p.stdout[:300]!r} {p.stderr[:300]!r}")
    readers["unzip"] = readers.get("unzip", 0) + 1


for n in nums:
    tame, exp = expected(n)
    try:
        with_zipfile(n, exp)
    except Exception as e:
        bad(n, "zipfile", f"{type(e).__name__}: {e}")
    if tame and LA is not None:
        with_libarchive(n, exp)
    if tame and exp and UNZIP and n % 4 == 0:
        with_unzip(n, exp)

JAVA = """
import java.util.zip.*; import java.util.*; import java.io.*; import java.nio.charset.StandardCharsets;
public class R { public static void main(String[] a) throws Exception { String d = a[0];
 for (int k = 1; k < a.length; k++) { String n = a[k]; try (ZipFile z = new ZipFile(d + "/" + n + ".zip")) {
   StringBuilder s = new StringBuilder("JAVA " + n);
   for (Enumeration<? extends ZipEntry> e = z.entries(); e.hasMoreElements();) { ZipEntry x = e.nextElement();
     byte[] b = z.getInputStream(x).readAllBytes(); CRC32 c = new CRC32(); c.update(b);
     s.append(' ').append(HexFormat.of().formatHex(x.getName().getBytes(StandardCharsets.UTF_8))).append(':').append(b.length).append(':').append(c.getValue()).append(':').append(x.getCrc()).append(':').append(x.getMethod()); }
   System.out.println(s); } catch (Exception e) { System.out.println("JAVAFAIL " + n + " " + e); } } } }
"""
if use_java and shutil.which("java"):
    import zlib
    tames = [n for n in nums if expected(n)[0]]
    os.makedirs(f"{d}/j")
    open(f"{d}/j/R.java", "w").write(JAVA)
    p = subprocess.run(["java", "-XX:TieredStopAtLevel=1", f"{d}/j/R.java", d] + [str(n) for n in tames],
                       capture_output=True, text=True, stdin=subprocess.DEVNULL)
    lines = p.stdout.splitlines()
    if p.returncode == 0:
        readers["java"] = 0
        for line in lines:
            f = line.split(" ")
            if f[0] == "JAVAFAIL":
                bad(int(f[1]), "java", line)
            elif f[0] == "JAVA":
                n = int(f[1])
                exp = expected(n)[1]
                want = [f"{a.hex()}:{len(b)}:{zlib.crc32(b)}:{zlib.crc32(b)}:0" for a, b in exp]
                if sorted(want) != sorted(f[2:]):
                    bad(n, "java", "entries differ")
                else:
                    readers["java"] += 1

print("DONE", len(nums), json.dumps(readers))
