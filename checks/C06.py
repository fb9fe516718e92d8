import readcheck
def run(ctx): readcheck.run(ctx, "bulk", ["bulk", "sep"], True)
