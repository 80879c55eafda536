"""build type 2+ packets: pkt(path, orig, dest, [(from, to, name_from, name_to, subject, body-lines)])"""
import struct, sys, time
def node(s):
    z, r = s.split(":"); n, f = r.split("/"); f, _, p = f.partition(".")
    return int(z), int(n), int(f), int(p or 0)
def pkt(path, orig, dest, msgs, pw=b"", attr=0, date=time.strftime("%d %b %y  %H:%M:%S").encode(), end=True):
    oz, on, of, op = node(orig); dz, dn, df, dp = node(dest)
    h = struct.pack("<HHHHHHHHHHHHBB", of, df, 2024, 10, 19, 12, 0, 0, 0, 2, on, dn, 0xfe, 1)
    h += pw.ljust(8, b"\0")
    h += struct.pack("<HHHHBBHHHHHI", oz, dz, 0, 0x0100, 0, 0, 1, oz, dz, op, dp, 0)
    assert len(h) == 58
    out = h
    for fr, to, nf, nt, subj, body in msgs:
        fz, fn, ff, fp = node(fr); tz, tn, tf, tp = node(to)
        out += struct.pack("<HHHHHHH", 2, ff, tf, fn, tn, attr, 0)
        out += date.ljust(20, b"\0")
        out += nt.encode() + b"\0" + nf.encode() + b"\0" + subj.encode() + b"\0"
        out += "\r".join(body).encode("latin1") + b"\r\0"
    open(path, "wb").write(out + (b"\0\0" if end else b""))
