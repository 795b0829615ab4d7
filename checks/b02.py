"""B02: completeness, order and chain-length bounds of cached cliques on the same yield patterns as B01."""
import b01
LEVEL = "exploration"


def run(ctx):
    b01.run(ctx, "B02")
