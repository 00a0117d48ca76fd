"""What the lock, condition, event and deadman checks share."""
import os
import ilv, symex
from common import VERIF

MTX = ["mtx.c", "robust.c", "tid.c", "err.c"]
SYSINC = ["-include", os.path.join(VERIF, "harness", "sysmacro.h")]


def kernel_notes(ctx):
    ctx.stub("the kernel's futex operations, robust list walk and thread exit follow the Linux sources (harness/il_kernel.h); any sleeping thread may be the one woken",
             "memory accesses are sequentially consistent and atomic per access; the compiler does not merge or move shared accesses",
             "a thread dies between two accesses of shared memory; what its registered list holds at every store in between is C15's subject")


def rounds_note(ctx, rounds):
    ctx.bound("schedules of up to %d rounds: in each round every thread in turn runs up to any place between two shared accesses (or not at all), so no thread is interrupted more than %d times" % (rounds, rounds - 1))
