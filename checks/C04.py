import numcheck
def run(ctx): numcheck.run(ctx, "real", ["isreal", "real", "strict", "rbound"])
