"""C30: job control at the prompt."""
import random
import jobctl, ptydrv

RULE = ("A case is one job in a random session on a pseudo-terminal: a command of one to four phases (an external process, a pipeline of processes, of a process and a loop, of a loop and a process that does or does not read, a spinning loop, a deep recursion, waiting for a task, reading a channel, "
        "opening a named pipe, reading the terminal, a capture, a redirection, a substitution, a loop of short processes) which is interrupted, stopped, listed, resumed in the foreground or the background by number or as the most recent, killed while stopped, stopped and continued by another process, and let go on, in any order, with up to five jobs at once. "
        "The oracle is a table of the jobs: what the terminal shows, the states of the processes in /proc, the marks each phase writes when it starts and ends (exactly once and in order, none while stopped or after an interrupt), the output of each phase, the shell's variables after every step, and its exit status. Distinct by how the job ended, whether it was resumed, and its first phases.")
ASSUMPTIONS = ["keys are pressed once the command entered runs what it is going to wait in; in a loop of short processes the key is pressed again if it falls between two of them, and a session that fails there is repeated up to twice"]


def check(ctx):
    def attempt(seed, root):
        s = None
        try:
            s = jobctl.Session(ctx, random.Random(seed), root)
            s.run(random.Random(seed + "/steps").randint(4, 14))
            ctx.count("sessions")
            return None, None
        except (jobctl.Wrong, ptydrv.Dead, ptydrv.Hang) as e:
            loop = s and s.pressed and s.pressed.kinds[s.pressed.at] == "each"
            return ("%s" % e, "case %s\n%s\n%s" % (seed, "\n".join(s.trace) if s else "", s.p.transcript() if s else "")), loop
        finally:
            if s:
                s.p.kill()

    def one(i):
        seed = "%s/30/%d" % (ctx.seed, i)
        # A key pressed between two processes of a loop of short processes can be lost,
        # or arrive when the prompt does. That does not happen three times.
        for _ in range(3):
            root = ctx.mkdir()
            try:
                v, loop = attempt(seed, root)
            finally:
                ctx.rmdir(root)
            if v is None:
                return
            if not loop:
                break
            ctx.count("sessions repeated")
        ctx.violation(*v)
    ctx.pmap(one, range(ctx.n(800, 12000)))
