import numcheck
def run(ctx): numcheck.run(ctx, "feq", ["feq", "xreal"])
