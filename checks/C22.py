import C21
def run(ctx):
    C21.run(ctx, ("random",), ("hull", "points"), 700)
