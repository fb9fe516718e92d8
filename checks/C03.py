import numcheck
def run(ctx): numcheck.run(ctx, "int", ["int", "isint"])
