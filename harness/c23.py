"""C23: offloading keeps modules and activations where computation needs them (spec/Schedule.tla, spec/Offload.tla)."""
from harness import c22


def run(ctx):
    for shared in ("TRUE", "FALSE"):
        ctx.model_check("Offload", f"INIT Init\nNEXT Next\nINVARIANTS Placed Home\nCHECK_DEADLOCK FALSE\nCONSTANTS Steps = {ctx.scale(3, 4)} Shared = {shared}\n")
    c22.run(ctx, off=True)
