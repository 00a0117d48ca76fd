from symex import *
from rpc_session import session


def run(ctx):
    run_all(ctx, session(ctx, ["PRPC"], "prpc.c"))
