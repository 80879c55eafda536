"""C17: names received from the network cannot leave the directory they belong to."""
from sa.nettaint import analyse, PATHS, TRUST

TECHNIQUE = "interprocedural taint dataflow over LLVM IR with function summaries and branch refinement, from every read of outside text to every path given to the file system"
NOTE = ("Sources as in C16; names found by reading a directory have no directory part. Text loses the power to name another directory when a branch established that it has no '/', "
        "when it equals a name found in a directory, or when only what follows its last '/' is used. The one name \"..\" by itself is not judged.")


def run(ctx):
    ctx.rule("at no call that opens, creates, renames or removes a file or directory, in any program, does the path contain text from outside that could still contain a '/'")
    ctx.assumption("the units %s read configuration, data bases and lists made by the system itself" % ", ".join(sorted(TRUST)))
    ctx.assumption("names given on the command line are the operator's (set-user-id programs: C21)")
    nsink = nread = 0
    for pn, out, nf, calls, reads, rows, rounds in analyse(ctx, PATHS):
        ctx.count("programs"); ctx.count("functions", nf); ctx.count("calls", calls); ctx.count("reads of outside text", reads); ctx.count("paths used", len(rows))
        nsink += len(rows); nread += reads
        for r in rows[:4]:
            ctx.sample("%s: %s:%d %s()" % (pn, r[1], r[3], r[4]))
        places = {}
        for k, src, fname, unit, top in out:
            places.setdefault((k[1], src), {})[(unit, fname, k[3])] = 1
        for (callee, src), ps in sorted(places.items()):
            for unit, fname, line in sorted(ps):
                ctx.violation("%s|%s|%s|%d" % (pn, callee, src, len(ps)), "%s:%s:%s" % (unit, fname, line),
                              "%s: %s is used as a path by %s() in %s() and may contain a directory part" % (pn, src, callee, fname))
    ctx.floor("paths used", nsink, 200)
    ctx.floor("reads of outside text", nread, 40)
