"""C16: text from the network never reaches a shell."""
from sa.nettaint import analyse, SHELLS, READS, TRUST
from sa.ctx import where

TECHNIQUE = "interprocedural taint dataflow over LLVM IR with function summaries, character-class sanitisers and branch refinement, from every read of outside text to every command line"
NOTE = ("Text is everything read by the programs except by the units that read configuration, data bases and the news server's article list, and every name found in a directory. It loses the power to act "
        "on the shell when a branch established that it lacks the shell's special characters (strpbrk/strcspn of at least |&;<>()$`\\\"' and newline, strspn of a harmless set, equality with "
        "text without it) or when it is turned into a number. Text that was stored in a configuration-like file earlier (area list, sequencer) is not followed through that file.")
EXECS = ("execl", "execlp", "execle", "execv", "execvp", "execve", "posix_spawn", "posix_spawnp")


def run(ctx):
    ctx.rule("at no call of system() or popen(), in any program, does the command line contain text from outside that could still contain a character the shell acts on")
    ctx.rule("no program starts a shell by exec*() with a command line")
    ctx.assumption("the units %s read configuration, data bases and lists made by the system itself" % ", ".join(sorted(TRUST)))
    ctx.assumption("blanks and file name patterns (* ? [) in received text can add or change arguments of a configured command; only characters that start another command or end its quoting are judged")
    nsink = nread = 0
    seen = set()
    for pn, out, nf, calls, reads, rows, rounds in analyse(ctx, SHELLS):
        ctx.count("programs"); ctx.count("functions", nf); ctx.count("calls", calls); ctx.count("reads of outside text", reads); ctx.count("command lines", len(rows))
        nsink += len(rows); nread += reads
        for r in rows:
            ctx.sample("%s: %s:%d %s()" % (pn, r[1], r[3], r[4]))
        for k, src, fname, unit, top in out:
            key = "%s|%s|%s" % (pn, k[1], src)
            if key in seen:
                continue
            seen.add(key)
            ctx.violation(key, "%s:%s:%s" % (unit, fname, k[3]), "%s: %s reaches the command line of %s() in %s() without having been restricted" % (pn, src, k[1], fname))
    for P in ctx.repo.progs.values():
        for f in P.funcs():
            for i in f.calls():
                if i.callee in EXECS and any(a[0] == "g" and (lambda g: g is not None and g.string() in ("-c", b"-c", "-c\0", b"-c\0"))(P.glob(f.unit, a[1])) for a in i.args):
                    ctx.violation("%s|exec-shell" % f.name, where(f, i.line), "%s() starts a shell with a command line" % f.name)
    ctx.floor("command lines", nsink, 15)
    ctx.floor("reads of outside text", nread, 40)
